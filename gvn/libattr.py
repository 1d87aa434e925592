"""Attribute access, subscription and their stores."""
from .values import *  # noqa
from . import terms as T
from . import ops
from .terms import H, const
from .libext import cellof, cells_of, seqterm, pk, cstr, cint, isnone, opaque_call, split

DATTRS = {'name', 'size', 'ndim', 'shape', 'dtype', 'calendar', 'encoding', 'nbytes', 'itemsize', 'start', 'stop', 'step', 'freq', 'tz', 'sizes',
          'variable', '_variable', 'nlat', 'kind', 'type', 'char', 'uxgrid', 'year', 'month', 'day', 'hour', 'season', 'days_in_month', 'dayofyear', 'date', 'freqstr',
          'coordinates', 'axes', 'standard_names', 'lon_weights'}
DA = ('da', 'ds', 'uxda', 'uxds')


def dims_term(x):
    src = ops.coordsrc(x)
    if not src:
        return H('tuple', ())
    s = [src[k] for k in sorted(src)]
    if len(s) == 1 and s[0].op == 'setcoord':
        return dims_term(s[0].args[0])
    if len(s) == 1 and s[0].op == 'wrap' and s[0].args[1] is not NONE:
        return s[0].args[1]
    return H('dims', s, kind='tuple')


def coords_term(x):
    src = ops.coordsrc(x)
    if not src:
        return H('dict', (), 0)
    return H('coords', [src[k] for k in sorted(src)])


def dims_of(I, c):
    if c.dims is not None:
        return c.dims
    return T.lift(dims_term, [c.val], ew=False)


def coords_of(I, c):
    if c.coords is not None and c.coords is not NONE:
        return c.coords
    return T.lift(coords_term, [c.val], ew=False)


def isinput(c):
    return isinstance(c.val, N) and c.val.op == 'in' and c.view is None


def iscoord(c):
    """a coordinate or variable of an object, which shares its memory and attributes, but not its name and coordinates"""
    return isinstance(c.val, N) and c.val.op == 'item' and c.view is None and c.kind == 'da'


def attrs_ref(I, l):
    c = I.cell(l)
    if c.attrs is None:
        base = c.attrsrc if c.attrsrc is not None else H('attrs', (), 'none')
        if base.op == 'attrs' and base.param == 'none':
            base = None
        r = I.new(DictC(base, (), c.roots if isinput(c) or iscoord(c) else frozenset()))
        I.heap[l.id] = c.with_(attrs=r)
        return r
    return c.attrs


def fullv(I, c):
    return I.full_cell(c)


def npview(I, l, c, lazy):
    return I.arr(c.val, 'np', [c], roots=c.roots, view=(l, None), lazy=c.lazy and lazy)


def derived(I, c, v, kind=None, **kw):
    return I.arr(v, kind or c.kind, [c], **kw)


def getattr_(I, l, attr, node):
    if isinstance(l, Ext):
        return extattr(I, l.name + '.' + attr, node)
    if isinstance(l, ModV):
        I.load(l.mod)
        if attr in l.mod.globals:
            return l.mod.globals[attr]
        sub = I.prog.submodule(l.mod, attr)
        return sub if sub is not None else T.opaque('module attribute ' + attr)
    if isinstance(l, Ref):
        c = I.cell(l)
        if isinstance(c, Arr):
            return arrattr(I, l, c, attr, node)
        if isinstance(c, Obj):
            if attr in c.fields:
                return c.fields[attr]
            return BM(l, attr)
        return BM(l, attr)
    if isinstance(l, N):
        return nattr(I, l, attr, node)
    if isinstance(l, ExcV):
        if attr == 'args':
            return Tup(l.args)
        return T.opaque('exception attribute')
    if isinstance(l, (Fn, Part)):
        if attr == '__name__':
            return const(getattr(l, 'name', '?'))
        if attr == '__dict__':
            return I.new(DictC(T.opaque('__dict__'), (), frozenset([('global', getattr(l, 'name', '?'))])))
        return H('attr', (I._packed(I.val(l)),), attr)
    return BM(l, attr)


def extattr(I, name, node):
    from .libext import canon
    from . import libnp
    n = canon(name)
    from .libbi import NDVALUES
    if n in NDVALUES:
        I.ev('nondet', node, what=n)
    v = libnp.VALUES.get(n)
    if v is not None:
        return v
    from .libext import ALIAS
    if name in ALIAS and n != name and n.rsplit('.', 1)[-1] == name.rsplit('.', 1)[-1]:
        return Ext(n)
    return Ext(name)


def nattr(I, l, attr, node):
    if l is NONE:
        I.do_raise('AttributeError', I.live, node, None, implicit=True)
        I.live = FALSE
        return T.opaque('dead')
    if l.op == 'dt':
        x = l.args[0]
        if attr in ('strftime', 'floor', 'ceil', 'round', 'isocalendar'):
            return BM(l, attr)
        return I.new(Arr(H('dt.' + attr, (x,)), 'da', attrsrc=H('attrs', (), 'none')))
    if l.op == 'cf':
        if attr in ('coordinates', 'axes', 'standard_names', 'cell_measures'):
            return H('cf.' + attr, l.args, l.param)
        return BM(l, attr)
    if l.op in ('coords', 'data_vars', 'indexes') and attr == 'dims':
        return H('dims', l.args, kind='tuple')
    if attr in DATTRS and not (l.op == 'const' or l.kind == 'str'):
        if attr == 'shape':
            return ops.shape(l)
        if attr == 'ndim':
            return ops.ndim(l)
        if attr == 'size':
            return H('size', (l,), isint=True, kind='int')
        if attr == 'name' and l.op == 'item':
            return l.args[1]
        return H('attr', (l,), attr, kind='str' if attr in ('name',) else None)
    if attr in ('real',):
        return l
    if attr == 'T':
        return H('transpose', (l,))
    return BM(l, attr)


def arrattr(I, l, c, attr, node):
    da = c.kind in DA or c.kind == 'any'
    if attr in ('values', 'data') and (da or c.kind == 'index'):
        if c.kind in ('ds', 'uxds'):
            return BM(l, attr)
        return npview(I, l, c, attr == 'data')
    if attr == 'dims' and da:
        return dims_of(I, c)
    if attr == 'coords' and da:
        return coords_of(I, c)
    if attr == 'attrs' and da:
        return attrs_ref(I, l)
    if attr == 'name' and (da or c.kind == 'index'):
        if c.name is not None:
            return c.name
        return T.lift(nameterm, [c.val], ew=False)
    if attr == 'shape':
        return T.lift(ops.shape, [c.val], ew=False)
    if attr == 'ndim':
        return T.lift(ops.ndim, [c.val], ew=False)
    if attr == 'size':
        return T.lift(lambda x: H('size', (sizesrc(x),), isint=True, kind='int'), [c.val], ew=False)
    if attr in ('dtype', 'sizes', 'nbytes', 'itemsize'):
        return T.lift(lambda x: H('attr', (ops.dtypesrc(x) if attr == 'dtype' else x,), attr), [c.val], ew=False)
    if attr == 'T':
        return I.lib.call_ext(I, 'numpy.transpose', [l], {}, node)
    if attr in ('real', 'imag') and c.kind != 'ds':
        return I.lib.call_ext(I, 'numpy.' + attr, [l], {}, node)
    if attr == 'dt':
        return T.lift(lambda x: H('dt', (x,)), [fullv(I, c)], ew=False)
    if attr == 'cf':
        return T.lift(lambda x: H('cf', (x,), c.kind), [fullv(I, c)], ew=False)
    if attr in ('indexes', 'loc', 'xindexes') and da:
        return T.lift(lambda x: H(attr, (x,), c.kind), [fullv(I, c)], ew=False)
    if attr == 'data_vars':
        return T.lift(lambda x: H('data_vars', (x,)), [fullv(I, c)], ew=False)
    if attr in ('chunks', 'chunksizes', 'encoding', 'uxgrid', 'variable', '_variable', 'flags', 'strides', 'calendar', 'freq'):
        return T.lift(lambda x: H('attr', (x,), attr), [fullv(I, c)], ew=False)
    if attr == '__module__':
        return T.lift(lambda x: H('modname', (x,), kind='str'), [c.val], ew=False)
    if c.kind == 'index' and attr in ('year', 'month', 'day', 'hour', 'dayofyear', 'days_in_month'):
        return derived(I, c, T.lift(lambda x: H('dt.' + attr, (x,)), [c.val], ew=False))
    from .libmeth import METHODS
    if attr in METHODS:
        return BM(l, attr)
    if c.kind in DA and not attr.startswith('_'):
        # attribute-style access to a coordinate or variable
        k = const(attr)
        return I.new(Arr(T.lift(lambda x: ops.item(x, k), [fullv(I, c)], ew=False), 'da', lazy=True, roots=c.roots,
                         attrsrc=H('attrs', (pk(I, l), k), 'coord')))
    return BM(l, attr)


def sizesrc(x):
    src = ops.coordsrc(x)
    if len(src) == 1:
        return next(iter(src.values()))
    return x


def nameterm(x):
    while x.op in ('flip', 'store', 'full_like') and x.args:
        x = x.args[0]
    if x.op == 'item':
        return x.args[1]
    src = ops.coordsrc(x)
    if len(src) == 1:
        x = next(iter(src.values()))
        if x.op == 'item':
            return x.args[1]
    return H('attr', (x,), 'name', kind='str')


def setmapped(I, l, c, k, v):
    """L[k] = v on a list with one element per element of a symbolic sequence"""
    k = I.alive(I.val(k)) if not isinstance(k, N) else k
    for x in T.leaves(k):
        if not isinstance(x, N) or not (x.op in ('lindex', 'idx') or (T.isnum(x) and x.isint and x.param >= 0)):
            return False
    if len(c.segs) != 1:
        return False
    sg = c.segs[0]
    if sg[0] == 'i' and sg[2] is TRUE and isinstance(sg[1], N) and sg[1].op == 'star':
        dom, elem = I.lib.domain(I, sg[1].args[0])
        if dom is None:
            return False
        body = I.val(elem())
    elif sg[0] == 'c' and sg[3] is TRUE and len(sg[2]) == 1 and sg[2][0][0] == 'i' and sg[2][0][2] is TRUE:
        dom, body = sg[1], I.val(sg[2][0][1])
    else:
        return False
    if not (isinstance(dom, N) and dom.op == 'rng') or (dom.args and T.isnum(dom.args[0])):
        return False
    ix = {x.fp: x for y in T.leaves(body) if isinstance(y, N) for x in T.subterms(y) if x.op == 'idx' and x.args and x.args[0].fp == dom.fp}
    if len(ix) != 1:
        return False
    i = next(iter(ix.values()))
    body = T.ite(I.truth(I.compare('Eq', i, k, None)), I.val(v), body)
    I.heap[l.id] = type(c)([('c', dom, (('i', body, TRUE),), TRUE)], c.roots)
    return True


# ---------------------------------------------------------------- stores on attributes
def setattr_(I, l, attr, v, node):
    if isinstance(l, Ref):
        c = I.cell(l)
        if isinstance(c, Arr):
            if attr == 'attrs':
                I.mutate_event(l, node, 'attrs assignment')
                r = I.new(DictC(None, ()))
                I.over(v, lambda o: I.lib.dict_update(I, r, o, node))
                I.heap[l.id] = I.cell(l).with_(attrs=r)
                return
            if attr == 'name':
                if not iscoord(c):
                    I.mutate_event(l, node, 'name assignment')
                I.heap[l.id] = I.cell(l).with_(name=v)
                return
            if attr in ('data', 'values'):
                I.mutate_event(l, node, attr + ' assignment')
                I.heap[l.id] = I.cell(l).with_(val=T.gmap(lambda x: x, I.val(v)), view=None)
                return
            if attr == 'coords':
                I.mutate_event(l, node, 'coords assignment')
                from .libxr import coordsval
                I.heap[l.id] = I.cell(l).with_(coords=coordsval(I, v))
                return
            if attr == 'shape':
                I.mutate_event(l, node, 'shape assignment')
                from .libnp import reshape1
                sh = I._packed(seqterm(I, v))
                I.heap[l.id] = c.with_(val=T.lift(lambda x: reshape1(I, x, sh), [c.val], ew=False))
                return
            I.mutate_event(l, node, 'attribute assignment .' + attr)
            I.heap[l.id] = c.with_(val=T.lift(lambda x: H('setattr', (x, pk(I, v)), attr), [c.val], ew=False))
            return
        if isinstance(c, Obj):
            I.mutate_event(l, node, 'attribute assignment .' + attr)
            f = dict(c.fields)
            f[attr] = v
            I.heap[l.id] = Obj(c.term, f, c.roots)
            return
    if isinstance(l, ModV):
        I.ev('global', node, name=l.mod.name + '.' + attr, how='assignment to a module attribute')
        l.mod.globals[attr] = v
        return
    if isinstance(l, Ext):
        I.ev('global', node, name=l.name + '.' + attr, how='assignment to an external attribute')
        return
    if isinstance(l, Fn):
        I.ev('global', node, name=l.name + '.' + attr, how='assignment to a function attribute')
        return
    I.ev('unknown', node, what='attribute store .' + attr)


# ---------------------------------------------------------------- subscripts
def idxterm(I, k):
    """index expression as a gated term"""
    def f(l):
        if isinstance(l, Tup):
            return T.lift(lambda *a: H('tuple', a), [I._packed(I.val(x)) for x in l.items], ew=False)
        if isinstance(l, Ref):
            c = I.cell(l)
            if isinstance(c, Arr):
                return I._packed(c.val)
        return I._val1(l)
    return T.gmap(f, k)


def isboolterm(n):
    return isinstance(n, N) and (n.kind == 'bool' or n.op in ('lt', 'le', 'eq', 'not', 'isnan') or n in (TRUE, FALSE)
                                 or (n.op == 'pw' and isboolterm(n.args[1]) and isboolterm(n.args[2])))


def getitem(I, l, k, node):
    if isinstance(k, Ite) and not isinstance(l, N):
        if any(not isinstance(x, N) for x in leaves(k)) or True:
            return I.over(k, lambda x: getitem(I, l, x, node))
    if isinstance(l, Ref):
        c = I.cell(l)
        if isinstance(c, DictC):
            return I.lib.dict_get(I, l, k, None, node)
        if isinstance(c, ListC):
            return listget(I, l, c, k, node)
        if isinstance(c, Arr):
            return arrget(I, l, c, k, node)
        if isinstance(c, Obj):
            return T.lift(lambda a, b: H('getitem', (a, b)), [I.val(l), I.val(k)], ew=False)
    if isinstance(l, Tup):
        i = cint(k)
        if i is not None:
            if -len(l.items) <= i < len(l.items):
                return l.items[i]
            I.do_raise('IndexError', I.live, node, None, implicit=True)
            I.live = FALSE
            return T.opaque('dead')
        if isinstance(k, SliceV):
            s = pyslice(k)
            if s is not None:
                return Tup(l.items[s])
    if isinstance(l, N):
        return I.over(k, lambda kk: nget(I, l, kk, node))
    if isinstance(l, Special) or isinstance(l, (Ext, Fn)):
        if isinstance(l, Ext):
            return l     # typing generics
        return T.opaque('subscript')
    if I.trydepth:
        pass
    return T.lift(lambda a, b: ops.index(a, b), [I.val(l), idxterm(I, k)], ew=False)


def pyslice(k):
    def one(g):
        if isnone(g):
            return True, None
        i = cint(g)
        return (i is not None), i
    r = [one(x) for x in (k.lo, k.hi, k.step)]
    return slice(*[x[1] for x in r]) if all(x[0] for x in r) else None


def listget(I, l, c, k, node):
    known = c.known()
    i = cint(k)
    if known is not None:
        if i is not None:
            if -len(known) <= i < len(known):
                return known[i]
            I.do_raise('IndexError', I.live, node, None, implicit=True)
            I.live = FALSE
            return T.opaque('dead')
        if isinstance(k, SliceV):
            s = pyslice(k)
            if s is not None:
                return I.new(ListC([('i', x, TRUE) for x in known[s]]))
    if i is not None and i >= 0 and all(s[0] == 'i' and s[2] is TRUE and not (isinstance(s[1], N) and s[1].op == 'star') for s in c.segs[:i + 1]) and len(c.segs) > i:
        return c.segs[i][1]
    t = I._packed(I.val(l))
    if isinstance(k, SliceV):
        r = T.lift(lambda b: ops.index(t, b), [idxterm(I, k)], ew=False)
        return I.new(ListC([('i', T.gmap(lambda x: H('star', (x,)), r), TRUE)]))
    # generic element of a comprehension keeps its cells only as a term
    if len(c.segs) == 1 and c.segs[0][0] == 'c' and c.segs[0][3] is TRUE and isinstance(k, N):
        _, dom, segs, g = c.segs[0]
        if len(segs) == 1 and segs[0][0] == 'i' and segs[0][2] is TRUE and i is not None and i == 0:
            pass
    return T.lift(lambda b: ops.index(t, b), [I.val(k)], ew=False)


def nget(I, l, k, node):
    s = isinstance(k, N) and (I.kind(k) == 'str')
    if l.op == 'cf':
        kk = pk(I, k)
        r = H('cfget', (l.args[0], kk), l.param)
        if I.trydepth:
            I.implicit_fail(r, 'KeyError', node)
        return I.new(Arr(r, 'da', attrsrc=H('attrs', (r,), 'cf')))
    if l.op in ('coords', 'data_vars'):
        if len(l.args) == 1:
            x = ops.item(l.args[0], pk(I, k))
            if I.trydepth:
                I.implicit_fail(x, 'KeyError', node)
            return I.new(Arr(x, 'da', attrsrc=H('attrs', (x,), 'coord')))
        x = H('item', (l, pk(I, k)))
        return I.new(Arr(x, 'da', attrsrc=H('attrs', (x,), 'coord')))
    if l.op in ('indexes', 'xindexes'):
        return I.new(Arr(H('indexof', (ops.item(l.args[0], pk(I, k)),)), 'index', attrsrc=H('attrs', (), 'none')))
    if l.op == 'loc':
        r = H('locget', (l.args[0], pk(I, k)))
        return I.new(Arr(r, l.param, attrsrc=H('attrs', (r,), 'loc')))
    if l.op in ('attrs', 'dictmerge', 'encoding'):
        r = H('getitem', (l, pk(I, k)))
        if I.trydepth:
            I.implicit_fail(r, 'KeyError', node)
        return r
    if l.op.startswith('cf.'):
        r = H('getitem', (l, pk(I, k)))
        if I.trydepth:
            I.implicit_fail(r, 'KeyError', node)
        return r
    kt = idxterm(I, k)
    if s and l.op not in ('const', 'strcat'):
        r = T.lift(lambda b: H('getitem', (l, b)), [kt], ew=False)
    elif l.op == 'const' and isinstance(l.param, str):
        i = cint(k)
        if i is not None and -len(l.param) <= i < len(l.param):
            return const(l.param[i])
        if isinstance(k, SliceV) and pyslice(k) is not None:
            return const(l.param[pyslice(k)])
        r = T.lift(lambda b: H('index', (l, b), kind='str'), [kt], ew=False)
    elif l.kind == 'str':
        r = T.lift(lambda b: H('index', (l, b), kind='str'), [kt], ew=False)
    else:
        def mk(b):
            x = ops.index(l, b)
            if l.op in ('list', 'tuple') and T.isnum(b) and b.isint and x.op == 'index' and not any(a.op in ('comp', 'compif', 'cond', 'map', 'star') for a in l.args):
                return T.opaque('index out of range')
            return x
        r = T.lift(mk, [kt], ew=False)
    if I.trydepth and not (l.op in ('dims', 'shape', 'tuple', 'list')):
        I.implicit_fail(I._packed(r), '?', node)
    return r


def mask_of(I, k):
    """boolean-array index -> gated (ew) condition, else None"""
    c = cellof(I, k) if not isinstance(k, Ite) else None
    if c is None:
        return None
    if all(isboolterm(x) for x in leaves(c.val)):
        return I.truth(I._relabel(c.val, True) if isinstance(c.val, Ite) else c.val, ew=True)
    return None


def arrget(I, l, c, k, node):
    if isinstance(k, N) and (I.kind(k) == 'str' or k.kind in ('str','strornone')) and c.kind in DA + ('any',):
        if c.coords is not None and isinstance(c.coords, Ref) and isinstance(I.cell(c.coords), DictC):
            dc = I.cell(c.coords)
            for e in dc.entries:
                if e[0] != 'each' and T._kid(I.val(e[0])) == T._kid(k) and e[2] is TRUE:
                    v = e[1].items[1] if isinstance(e[1], Tup) and len(e[1].items) >= 2 else e[1]
                    return I.new(Arr(I.val(v), 'da', attrsrc=H('attrs', (pk(I, v),), 'coord')))
        v = T.lift(lambda x: ops.item(x, k), [fullv(I, c)], ew=False)
        if I.trydepth:
            I.implicit_fail(I._packed(v), 'KeyError', node)
        return I.new(Arr(v, 'da', lazy=True, roots=c.roots, attrsrc=H('attrs', (I._packed(v),), 'coord')))
    kc = I.cell(k) if isinstance(k, Ref) else None
    if c.kind in ('ds', 'uxds'):
        v = T.lift(lambda x, kk: H('select', (x, kk)), [fullv(I, c), I.val(k)], ew=False)
        return I.arr(v, 'ds', [c])
    if isinstance(kc, DictC) and c.kind in ('da', 'uxda'):
        return I.lib.call_method(I, l, 'isel', [k], {}, node)
    if c.kind == 'gb':
        v = T.lift(lambda x, kk: H('group', (x, kk)), [c.val, I.val(k)], ew=False)
        return I.arr(v, 'da', [c])
    m = mask_of(I, k)
    kt = idxterm(I, k)
    if m is not None:
        kt = I._packed(m)
    if c.kind in ('np', 'duck') and isinstance(kt, N):
        ax = newaxes(kt)
        if ax is not None:
            return I.lib.call_ext(I, 'numpy.expand_dims', [l, const(ax[0]) if len(ax) == 1 else Tup([const(a) for a in ax])], {}, node)

    def mk(x, b):
        r = ops.index(x, b)
        if b.op == 'tuple' and x.op in ('store',):
            return r
        return r
    v = T.lift(mk, [fullv(I, c) if c.kind in DA else c.val, kt], ew=False)
    scalar = all(isinstance(x, N) and ops.norm_idx(x).op != 'slice' and (x.isint or T.isnum(x)) for x in leaves(kt))
    kd = c.kind
    view = (l, kt) if m is None and not isinstance(kt, Ite) and c.kind != 'index' else None
    basic = isinstance(kt, N) and basic_index(kt)
    return I.arr(v, kd, [c], roots=c.roots if basic else frozenset(), view=view if basic else None)


def newaxes(kt):
    """axes inserted by an index of full slices and None (x[:, None], x[..., None]), else None"""
    a = list(kt.args) if kt.op == 'tuple' else [kt]
    if not any(x is NONE for x in a):
        return None
    el = [i for i, x in enumerate(a) if x.op == 'const' and x.param is Ellipsis]
    if any(i not in el and x is not NONE and not ops._full(x) for i, x in enumerate(a)) or len(el) > 1:
        return None
    if el and any(x is NONE for x in a[:el[0]]):
        if any(x is NONE for x in a[el[0]:]):
            return None
    if el and any(x is NONE for x in a[el[0]:]):
        return [i - len(a) for i, x in enumerate(a) if x is NONE]
    return [i for i, x in enumerate(a) if x is NONE]


def basic_index(n):
    if n.op == 'tuple':
        return all(basic_index(a) for a in n.args)
    return n.op == 'slice' or n.isint or T.isnum(n) or n is NONE or (n.op == 'const' and n.param is Ellipsis)


# ---------------------------------------------------------------- item stores
def unmask(v, mask):
    """value stored at x[mask], as a full-array expression (None if not element-wise)"""
    if v.op == 'index' and v.args[1].fp == mask.fp:
        return v.args[0]
    if ops.scalarish(v):
        return v
    if v.op in ops.ELEMWISE:
        a = [unmask(x, mask) for x in v.args]
        return None if any(x is None for x in a) else ops.rebuild(v, a)
    return None


def setitem(I, l, k, v, node):
    if isinstance(k, Ite):
        return I.over(k, lambda kk: (setitem(I, l, kk, v, node), NONE)[1])
    if not isinstance(l, Ref):
        if isinstance(l, N) and l.op in ('attrs',):
            I.ev('unknown', node, what='item store on a term')
            return
        if isinstance(l, N) and l.op == 'loc':
            I.ev('unknown', node, what='loc store')
            return
        if isinstance(l, N) and l.op in ('coords', 'data_vars', 'dims', 'shape', 'item', 'in'):
            I.ev('mutate', node, roots=frozenset([('term', T.show(l, 3))]), what='item assignment')
            return
        I.ev('unknown', node, what='item store')
        return
    c = I.cell(l)
    if isinstance(c, DictC):
        I.lib.dict_set(I, l, k, v, node)
        return
    if isinstance(c, ListC):
        I.mutate_event(l, node, 'item assignment')
        known = c.known()
        i = cint(k)
        if known is not None and i is not None and -len(known) <= i < len(known):
            known = list(known)
            known[i] = v
            I.heap[l.id] = ListC([('i', x, TRUE) for x in known], c.roots)
            return
        if i is not None and i >= 0:
            from .ops import subst
            segs = list(c.segs)
            for j, sg in enumerate(segs):
                if sg[0] == 'i':
                    if sg[2] is not TRUE:
                        break
                    if j == i:
                        segs[j] = ('i', v, TRUE)
                        I.heap[l.id] = ListC(segs, c.roots)
                        return
                    continue
                _, dom, inner, g = sg
                if j == i and g is TRUE and isinstance(dom, N) and dom.op == 'rng' and len(inner) == 1 and inner[0][0] == 'i' and inner[0][2] is TRUE:
                    # first element of a mapped range: v, then the rest of the range
                    body = I.val(inner[0][1])
                    if isinstance(body, N):
                        d2 = H('rng', (T.sub(dom.args[0], const(1)),))
                        if isinstance(d2.args[0], N):
                            m = {}
                            for x in T.subterms(body):
                                if x.op == 'idx' and x.args and x.args[0].fp == dom.fp:
                                    m[x.fp] = T.add(H('idx', (d2,), x.param, isint=True, kind='int'), const(1))
                            if all(isinstance(y, N) for y in m.values()):
                                segs[j:j + 1] = [('i', v, TRUE), ('c', d2, (('i', subst(body, m), TRUE),), TRUE)]
                                I.heap[l.id] = ListC(segs, c.roots)
                                return
                break
        if setmapped(I, l, c, k, v):
            return
        t = T.lift(lambda b, i2, x: H('star', (H('lset', (b, i2, x)),)), [I.val(l), idxterm(I, k), I.val(v)], ew=False)
        I.heap[l.id] = ListC([('i', t, TRUE)], c.roots)
        return
    if isinstance(c, Obj):
        I.mutate_event(l, node, 'item assignment')
        I.heap[l.id] = Obj(T.H('setitem', (I._packed(I._val1(l)), pk(I, k), pk(I, v))), c.fields, c.roots)
        return
    if not isinstance(c, Arr):
        return
    if c.kind in DA + ('any',) and isinstance(k, N) and (I.kind(k) == 'str' or k.kind in ('str','strornone')):
        setcoord(I, l, k, v, node)
        return
    m = mask_of(I, k)
    if m is not None:
        mt = I._packed(m)

        def f(x):
            u = T.gmap(lambda y: unmask(y, mt) or H('\0no'), I.val(v))
            if any(y.op == '\0no' for y in leaves(u)):
                return T.lift(lambda b, y: H('store', (b, mt, y)), [x, I.val(v)], ew=False)
            from .libnp import minmaxfix
            return minmaxfix(T.ite(m, u, x)) if True else None
        if T.DTYPES:
            I.dtwrite(l, I.val(v), node)
        I.mutate_arr(l, f(c.val), node, 'element assignment')
        return
    kt = idxterm(I, k)
    nv = T.lift(lambda b, i, x: I.lib.store(b, i, x), [c.val, kt, I.val(v)], ew=False)
    if T.DTYPES:
        I.dtwrite(l, I.val(v), node)
    I.mutate_arr(l, nv, node, 'element assignment')


def coordval(I, v):
    if isinstance(v, Tup) and len(v.items) in (2, 3):
        from .libxr import coordentry
        return pk(I, coordentry(I, v))
    return I._packed(I.val(v))


def setcoord(I, l, k, v, node):
    if not isinstance(l, Ref) or not isinstance(I.cell(l), Arr):
        I.ev('unknown', node, what='coordinate store')
        return
    c = I.cell(l)
    if not iscoord(c):
        I.mutate_event(l, node, 'coordinate assignment')
    c = I.cell(l)
    I.heap[l.id] = with_coord(I, c, k, v)


def with_coord(I, c, k, v):
    if isinstance(c.coords, Ref) and isinstance(I.cell(c.coords), DictC):
        d = I.cell(c.coords)
        r = I.new(DictC(d.base, d.entries))
        from .libxr import coordentry
        I.lib.dict_set(I, r, k, coordentry(I, v), None)
        return c.with_(coords=r)
    vt = coordval(I, v)
    nv = T.lift(lambda x, kk: setcoord_term(x, kk, vt), [c.val, I.val(k)], ew=False)
    return c.with_(val=nv)


def setcoord_term(x, k, v):
    """assignments commute on different constant keys"""
    chain = [(k, v)]
    b = x
    while b.op == 'setcoord':
        if b.args[1].fp != k.fp:
            chain.append((b.args[1], b.args[2]))
        b = b.args[0]
    if all(T.isconst(a) for a, _ in chain):
        chain.sort(key=lambda t: t[0].fp)
    else:
        chain.reverse()
    for a, w in chain:
        b = H('setcoord', (b, a, w))
    return b


def delitem(I, o, k, node):
    def f(l):
        c = I.cell(l) if isinstance(l, Ref) else None
        if isinstance(c, DictC):
            I.mutate_event(l, node, 'item deletion')
            kk = T._kid(I.val(k))
            ents = [e for e in c.entries if e[0] == 'each' or T._kid(I.val(e[0])) != kk]
            if len(ents) == len(c.entries) and c.base is not None:
                I.heap[l.id] = DictC(T.lift(lambda b: H('dictdel', (c.base, b)), [I.val(k)], ew=False) if not isinstance(I.val(k), Ite) else T.opaque('del'), ents, c.roots)
            else:
                I.heap[l.id] = DictC(c.base, ents, c.roots)
        elif isinstance(c, ListC):
            from .libmeth import list_pop
            list_pop(I, l, k, node)
        elif isinstance(c, Arr):
            I.mutate_event(l, node, 'coordinate deletion')
            I.heap[l.id] = c.with_(val=T.lift(lambda x, b: H('drop_vars', (x, b)), [c.val, I.val(k)], ew=False))
        else:
            I.ev('unknown', node, what='del')
        return NONE
    I.over(o, f)
