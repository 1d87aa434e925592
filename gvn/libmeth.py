"""Method calls on abstract objects."""
import ast
from .values import *  # noqa
from . import terms as T
from . import ops
from .terms import H, const
from .libext import (cellof, cells_of, seqterm, pk, cstr, cint, isnone, sig, extras, ew, build, split, dimsterm, call_ext, unknown_call)
from .libattr import (getattr_, setattr_, getitem, setitem, setcoord, delitem, fullv, DA, with_coord, attrs_ref, dims_of)  # noqa: F401

METHODS = {}


def m(*names):
    def d(f):
        for n in names:
            METHODS[n] = f
        return f
    return d


def ewk(a):
    return I_relabel(a)


def dd(I, args, kwargs, drop=()):
    """dict-or-kwargs indexers -> (list of (key G, val G), leftovers) or None"""
    kw = {k: v for k, v in kwargs.items() if k not in drop and k != '**'}
    left = {k: v for k, v in kwargs.items() if k in drop}
    ents = []
    if '**' in kwargs:
        args = list(args) + [kwargs['**']]
    for a in args[:2]:
        if isnone(a):
            continue
        c = I.cell(a) if isinstance(a, Ref) else None
        if not isinstance(c, DictC) or c.base is not None or any(e[0] == 'each' or e[2] is not TRUE for e in c.entries):
            return None, left
        ents += [(e[0], e[1]) for e in c.entries]
    ents += [(const(k), v) for k, v in kw.items()]
    return ents, left


def ddterm(I, ents, f=None):
    f = f or (lambda g: pk(I, g))
    kvs = [H('kv', (pk(I, k), f(v))) for k, v in ents]
    return H('dict', sorted(kvs, key=lambda n: n.fp), 0)


def idx(I, g):
    from .libattr import idxterm
    return I._packed(T.gmap(lambda x: x, idxterm(I, g)))


def seqorval(I, g):
    return I._packed(seqterm(I, g)) if not cells_of(I, [g]) else pk(I, g)


def lab(I, l, c, op, ex, kind=None, **kw):
    """a labelled operation: term over the full array"""
    v = T.lift(lambda x: H(op, (x,) + tuple(ex)), [fullv(I, c)], ew=False)
    k = kind or c.kind
    kw.setdefault('attrsrc', I.attrs_term(c))
    return I.arr(v, k, [c], **kw)


def keepattrs(I, c, kwargs):
    ka = kwargs.get('keep_attrs')
    a = I.attrs_term(c)
    if ka is None or ka is NONE:
        return H('attrs', (a,), 'reduced')
    if ka is TRUE:
        return a
    if ka is FALSE:
        return H('attrs', (), 'none')
    return H('attrs', (a, pk(I, ka)), 'keep')


# methods that change their receiver, whatever it is
MUTATE = set('''append appendleft extend extendleft insert remove pop popitem popleft clear update setdefault add discard sort reverse fill put
itemset resize setflags move_to_end rotate set __setitem__ __delitem__ __setattr__ __delattr__ __iadd__ __isub__ __imul__ __itruediv__ __ior__ __iand__
__ipow__ __ixor__ intersection_update difference_update symmetric_difference_update load cache_clear reset __next__ send write writelines
setLevel addHandler removeHandler addFilter'''.split())
INPLACE = {'__iadd__': 'Add', '__isub__': 'Sub', '__imul__': 'Mult', '__itruediv__': 'Div', '__ipow__': 'Pow'}
# methods that write a file
FILES = set('to_netcdf to_zarr to_csv to_pickle to_parquet to_hdf to_json tofile write_text write_bytes mkdir rmdir unlink symlink_to'.split())


def dunder(I, recv, name, args, node):
    if name == '__setitem__' and len(args) == 2:
        I.lib.setitem(I, recv, args[0], args[1], node)
        return NONE
    if name == '__delitem__' and len(args) == 1:
        I.lib.delitem(I, recv, args[0], node)
        return NONE
    if name == '__getitem__' and len(args) == 1:
        return I.lib.getitem(I, recv, args[0], node)
    if name == '__setattr__' and len(args) == 2 and isinstance(args[0], N) and isinstance(args[0].param, str):
        I.lib.setattr_(I, recv, args[0].param, args[1], node)
        return NONE
    if name in INPLACE and len(args) == 1 and isinstance(recv, Ref) and isinstance(I.cell(recv), Arr):
        r = I.binop(INPLACE[name], recv, args[0], node)
        I.mutate_arr(recv, I.val(r), node, name)
        return recv
    return NotImplemented


def call_method(I, recv, name, args, kwargs, node):
    if name.startswith('__'):
        r = dunder(I, recv, name, args, node)
        if r is not NotImplemented:
            return r
    if name in FILES:
        I.ev('global', node, name='.' + name, how='external file write')
    if name in MUTATE and not isinstance(recv, Ref) and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
        I.writes(node.func.value, node, name + '()')
        if name in ('setLevel', 'addHandler', 'removeHandler', 'addFilter'):
            I.ev('global', node, name='.' + name, how='process-wide setting')
    if isinstance(recv, Ref):
        c = I.cell(recv)
        if isinstance(c, Arr):
            f = METHODS.get(name)
            if f is not None:
                r = f(I, recv, c, name, args, kwargs, node)
                if r is not NotImplemented:
                    return keepname(I, c, name, r)
            if name in MUTATE or (name == 'byteswap' and (args or kwargs)):
                I.mutate_event(recv, node, name + '()')
            return unknown_method(I, recv, name, args, kwargs, node)
        if isinstance(c, DictC):
            return dict_method(I, recv, c, name, args, kwargs, node)
        if isinstance(c, ListC):
            return list_method(I, recv, c, name, args, kwargs, node)
        return unknown_method(I, recv, name, args, kwargs, node)
    if isinstance(recv, N):
        return term_method(I, recv, name, args, kwargs, node)
    if isinstance(recv, Tup):
        if name in ('index', 'count'):
            return list_method(I, I.new(ListC([('i', x, TRUE) for x in recv.items])), None, name, args, kwargs, node)
    return unknown_method(I, recv, name, args, kwargs, node)


# methods of a DataArray whose result has the name of the array
NAMEKEEP = set('''transpose isel sel head tail thin interp reindex rename assign_coords assign_attrs drop_attrs drop_vars drop reset_coords drop_sel drop_isel
set_coords set_index swap_dims expand_dims stack unstack broadcast_like sortby shift roll diff pad where fillna clip astype copy chunk compute load persist
mean sum std var min max median prod quantile squeeze isnull notnull round dropna ffill bfill interpolate_na cumsum cumprod'''.split())


def keepname(I, c, name, r):
    if c.kind != 'da' or c.name is None or name not in NAMEKEEP:
        return r
    for l in T.leaves(r):
        k = I.cell(l) if isinstance(l, Ref) else None
        if isinstance(k, Arr) and k.kind == 'da' and k.name is None and k is not c:
            I.heap[l.id] = k.with_(name=c.name)
    return r


def unknown_method(I, recv, name, args, kwargs, node):
    return unknown_call(I, '.' + name, [recv] + list(args), kwargs, node)


# ================================================================= terms
# eofs.xarray.Eof: parameters and defaults
SOLVER = {'eofs': (('eofscaling', T.ZERO), ('neofs', NONE)), 'pcs': (('pcscaling', T.ZERO), ('npcs', NONE)), 'eigenvalues': (('neigs', NONE),),
          'northTest': (('neigs', NONE), ('vfscaled', FALSE)), 'varianceFraction': (('neigs', NONE),)}
PURE_TERM = set('''eofs pcs eigenvalues northTest totalAnomalyVariance varianceFraction eofsAsCorrelation eofsAsCovariance
projectField reconstructedField keys values items isoformat date time timestamp total_seconds timetuple calculate_areas'''.split())


def term_method(I, t, name, args, kwargs, node):
    if t is NONE:
        I.do_raise('AttributeError', I.live, node, None, implicit=True)
        I.live = FALSE
        return T.opaque('dead')
    if t.op == 'dt':
        al = [seqorval(I, a) for a in args] + extras(I, kwargs)
        return I.new(Arr(H('dt:' + name, (t.args[0],) + tuple(al)), 'da', attrsrc=H('attrs', (), 'none')))
    if t.op == 'cf':
        if name == 'guess_coord_axis':
            ex = extras(I, kwargs)
            return I.new(Arr(H('cf.guess', t.args + tuple(ex)), t.param or 'da', attrsrc=H('attrs', (t,), 'cf')))
        if name in ('keys', '__contains__'):
            return H('cfkeys', t.args)
        return unknown_method(I, t, name, args, kwargs, node)
    if t.op == 'weighted':
        from .libnp import axisterm
        s = sig(args, kwargs, 'dim', 'skipna', 'keep_attrs')
        ax = axisterm(I, None, None, s['dim'])
        ex = [ax] if ax is not None else []
        if s['skipna'] is not None and s['skipna'] is not NONE:
            ex.append(H('kw', (pk(I, s['skipna']),), 'skipna'))
        r = H('w' + name, t.args + tuple(ex) + tuple(extras(I, s['*'])))
        return I.arr(r, t.param, [], attrsrc=H('attrs', (t,), 'reduced'))
    if I.kind(t) in ('str', 'strornone') or t.kind in ('str', 'strornone'):
        from .lib import str_method
        return str_method(I, t, name, list(args), node)
    if t.op in ('coords', 'data_vars', 'attrs', 'dict', 'dictmerge', 'cf.coordinates', 'indexes', 'dictget', 'getitem', 'sizes'):
        if name in ('items', 'keys', 'values'):
            from .lib import IterV
            return IterV(name, (t,))
        if name == 'get':
            d = args[1] if len(args) > 1 else NONE
            return T.lift(lambda a, b: H('dictget', (t, a, b)), [I.val(args[0]), I.val(d)], ew=False)
        if name == 'copy':
            return I.new(DictC(t, ()))
        if name == 'to_dataset':
            return unknown_method(I, t, name, args, kwargs, node)
    if t.op in ('coords', 'data_vars') and name == '__contains__':
        return I.lib.contains(I, args[0], t, node)
    if name in ('index', 'count') and (t.op in ('dims', 'tuple', 'list', 'shape') or t.kind == 'tuple'):
        r = T.lift(lambda a: lindex(t, a) if name == 'index' else H('lcount', (t, a), isint=True, kind='int'), [I.val(args[0])], ew=False)
        if I.trydepth:
            I.implicit_fail(I._packed(r), 'ValueError', node)
        return r
    if name in PURE_TERM or t.op == 'call':
        df = {}
        if name in SOLVER and len(args) <= len(SOLVER[name]):
            df = dict(SOLVER[name])
            kwargs = dict(zip([k for k, _ in SOLVER[name]], args), **kwargs)
            args = ()
        al = [H('kw', (pk(I, v),), k) for k, v in sorted(kwargs.items()) if not isnone(v) and not (k in df and pk(I, v).fp == df[k].fp)]
        r = H('m:' + name, (t,) + tuple(seqorval(I, a) for a in args) + tuple(al))
        if I.trydepth:
            I.implicit_fail(r, '?', node)
        if name in ('eofs', 'pcs', 'eigenvalues', 'northTest', 'totalAnomalyVariance', 'varianceFraction'):
            return I.arr(r, 'da', [])
        return r
    if name in ('astype', 'item', 'tolist') and ops.scalarish(t):
        return t
    if name in METHODS and t.kind not in ('str',):
        # a numpy scalar or an array known only as a term
        r = I.new(Arr(t, 'np'))
        return call_method(I, r, name, args, kwargs, node)
    return unknown_method(I, t, name, args, kwargs, node)


def lindex(t, a):
    if t.op in ('dims',) and a.op == 'index' and a.args[0].fp == t.fp:
        return a.args[1]
    if t.op in ('list', 'tuple') and T.isconst(a) and all(T.isconst(x) for x in t.args):
        for i, x in enumerate(t.args):
            if x.fp == a.fp:
                return const(i)
    return H('lindex', (t, a), isint=True, kind='int')


# ================================================================= dict / list
def dict_method(I, l, c, name, args, kwargs, node):
    lib = I.lib
    if name in ('items', 'keys', 'values'):
        return lib.IterV(name, (l,))
    if name == 'get':
        return I.over(args[0], lambda k: lib.dict_get(I, l, k, args[1] if len(args) > 1 else kwargs.get('default', NONE), node))
    if name == 'copy':
        return I.new(DictC(c.base, c.entries))
    if name == 'update':
        for a in args:
            items = lib.enumerate_known(I, a, 100) if isinstance(a, (Ref, Tup)) and not isinstance(I.cell(a) if isinstance(a, Ref) else None, DictC) else None
            if items is not None and all(isinstance(x, Tup) and len(x.items) == 2 for x in items):
                for x in items:
                    lib.dict_set(I, l, x.items[0], x.items[1], node)
            else:
                lib.dict_update(I, l, a, node)
        for k, v in kwargs.items():
            if k == '**':
                lib.dict_update(I, l, v, node)
            else:
                lib.dict_set(I, l, const(k), v, node)
        return NONE
    if name == 'setdefault':
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        has = lib.contains(I, k, l, node)
        v = I.branch(I.truth(has), lambda: lib.dict_get(I, l, k, d, node), lambda: (lib.dict_set(I, l, k, d, node), d)[1])
        return v
    if name == 'pop':
        k = args[0]
        v = lib.dict_get(I, l, k, args[1] if len(args) > 1 else None, node)
        if I.live is not FALSE:
            delitem(I, l, k, node)
        return v
    if name == 'clear':
        I.mutate_event(l, node, 'clear()')
        I.heap[l.id] = DictC(None, (), c.roots)
        return NONE
    if name in ('popitem', '__setitem__', '__delitem__'):
        I.mutate_event(l, node, name)
        if name == '__setitem__':
            lib.dict_set(I, l, args[0], args[1], node)
            return NONE
    return unknown_method(I, l, name, args, kwargs, node)


def list_pop(I, l, k, node):
    """remove item k; returns it"""
    c = I.cell(l)
    I.mutate_event(l, node, 'pop()')
    known = c.known()
    i = cint(k)
    if known is not None and i is not None and not any(isinstance(x, N) and x.op == 'star' for x in known):
        if -len(known) <= i < len(known):
            known = list(known)
            v = known.pop(i)
            I.heap[l.id] = ListC([('i', x, TRUE) for x in known], c.roots)
            return v
        I.do_raise('IndexError', I.live, node, None, implicit=True)
        I.live = FALSE
        return T.opaque('dead')
    t = pk(I, l)
    kt = pk(I, k)
    I.heap[l.id] = ListC([('i', H('star', (H('lpop', (t, kt)),)), TRUE)], c.roots)
    return ops.index(t, kt)


def list_method(I, l, c, name, args, kwargs, node):
    lib = I.lib
    c = I.cell(l)
    if isinstance(c, SetC):
        return set_method(I, l, c, name, args, kwargs, node)
    if name == 'append':
        I.mutate_event(l, node, 'append()')
        lib.list_append(I, l, args[0], node)
        return NONE
    if name == 'extend':
        I.mutate_event(l, node, 'extend()')
        lib.list_extend(I, l, args[0], node)
        return NONE
    if name == 'insert':
        I.mutate_event(l, node, 'insert()')
        i = cint(args[0])
        segs = list(c.segs)
        simple = all(s[0] == 'i' and s[2] is TRUE and not (isinstance(s[1], N) and s[1].op == 'star') for s in segs)
        if i == 0 or (i is not None and simple):
            segs.insert(i, ('i', args[1], TRUE))
            I.heap[l.id] = ListC(segs, c.roots)
        else:
            t = T.lift(lambda a, b, v: H('star', (H('linsert', (a, b, v)),)), [I.val(l), I.val(args[0]), I.val(args[1])], ew=False)
            I.heap[l.id] = ListC([('i', t, TRUE)], c.roots)
        return NONE
    if name == 'pop':
        return list_pop(I, l, args[0] if args else const(-1), node)
    if name == 'copy':
        return I.new(ListC(c.segs))
    if name == 'clear':
        I.mutate_event(l, node, 'clear()')
        I.heap[l.id] = ListC((), c.roots)
        return NONE
    if name == 'index':
        items = lib.enumerate_known(I, l, 200)
        if items is not None and not any(isinstance(x, tuple) for x in items) and not any(isinstance(x, N) and x.op == 'star' for x in items):
            def go(i):
                if i == len(items):
                    I.do_raise('ValueError', I.live, node, None, implicit=True)
                    I.live = FALSE
                    return T.opaque('dead')
                return I.branch(I.truth(lib.pyeq(I, items[i], args[0])), lambda: const(i), lambda: go(i + 1))
            return go(0)
        r = T.lift(lambda t, a: lindex(t, a), [I.val(l), I.val(args[0])], ew=False)
        if I.trydepth:
            I.implicit_fail(I._packed(r), 'ValueError', node)
        return r
    if name == 'count':
        return T.lift(lambda t, a: H('lcount', (t, a), isint=True, kind='int'), [I.val(l), I.val(args[0])], ew=False)
    if name in ('sort', 'reverse', 'remove'):
        I.mutate_event(l, node, name + '()')
        known = c.known()
        if name == 'reverse' and known is not None:
            I.heap[l.id] = ListC([('i', x, TRUE) for x in known[::-1]], c.roots)
        else:
            al = [pk(I, a) for a in args] + extras(I, kwargs)
            t = H('star', (H('l' + name, (pk(I, l),) + tuple(al)),))
            I.heap[l.id] = ListC([('i', t, TRUE)], c.roots)
        return NONE
    return unknown_method(I, l, name, args, kwargs, node)


def set_method(I, l, c, name, args, kwargs, node):
    lib = I.lib
    if name == 'add':
        lib.set_update(I, l, I.new(ListC([('i', args[0], TRUE)])), node)
        return NONE
    if name == 'update':
        for a in args:
            lib.set_update(I, l, a, node)
        return NONE
    if name == 'union':
        r = I.new(SetC(c.segs))
        for a in args:
            lib.set_update(I, r, a, node)
        return r
    if name == 'issubset':
        return lib.subset(I, l, args[0])
    if name == 'issuperset':
        return lib.subset(I, args[0], l)
    if name == 'copy':
        return I.new(SetC(c.segs))
    if name in ('discard', 'remove', 'clear', 'pop'):
        I.mutate_event(l, node, name + '()')
        if name == 'pop':
            I.ev('setiter', node, loop=node)
        t = H('star', (H('s' + name, (pk(I, l),) + tuple(pk(I, a) for a in args)),))
        I.heap[l.id] = SetC([('i', t, TRUE)], c.roots)
        return NONE
    if name in ('intersection', 'difference', 'symmetric_difference'):
        t = H('setop', (pk(I, l),) + tuple(pk(I, a) for a in args), {'intersection': 'BitAnd', 'difference': 'Sub', 'symmetric_difference': 'BitXor'}[name])
        return I.new(SetC([('i', H('star', (t,)), TRUE)]))
    return unknown_method(I, l, name, args, kwargs, node)


# ================================================================= arrays: element-wise
@m('astype')
def a_astype(I, l, c, name, args, kwargs, node):
    from .libnp import with_dtype
    v = with_dtype(I, c.val, args[0] if args else kwargs.get('dtype'))
    cp = kwargs.get("copy")
    if cp is not None and cp is not TRUE or len(args) > 3 and args[3] is not TRUE:
        # copy=False: may be the array itself
        return I.new(c.with_(val=v, roots=c.roots, view=(l, None)))
    return I.new(c.with_(val=v, roots=frozenset(), view=None))


@m('copy', '__copy__', '__deepcopy__')
def a_copy(I, l, c, name, args, kwargs, node):
    at = c.attrs
    if at is not None:
        r = I.new(DictC(None, ()))
        I.over(at, lambda o: I.lib.dict_update(I, r, o, node))
        at = r
    s = sig(args, kwargs, 'deep', 'data')
    rec = c.with_(roots=frozenset(), view=None, attrs=at, attrsrc=c.attrsrc if c.attrsrc is not None else None)
    if s['deep'] is FALSE and c.kind in DA:
        rec = rec.with_(roots=c.roots, view=(l, None))
    if s['data'] is not None:
        rec = rec.with_(val=I.val(s['data']), dims=dims_of(I, c), coords=coords_keep(I, c))
    r = I.new(rec)
    return r


def coords_keep(I, c):
    from .libattr import coords_of
    return coords_of(I, c)


@m('compute', 'load', 'persist')
def a_compute(I, l, c, name, args, kwargs, node):
    if name == 'load':
        I.mutate_event(l, node, 'load()')
        I.heap[l.id] = c.with_(lazy=False)
        I.ev('compute', node, how='.load()', roots=c.roots, lazy=c.lazy)
        return l
    I.ev('compute', node, how='.%s()' % name, roots=c.roots, lazy=c.lazy)
    return I.new(c.with_(lazy=c.lazy and name == 'persist', view=None))


@m('chunk', 'unify_chunks')
def a_chunk(I, l, c, name, args, kwargs, node):
    return I.new(c.with_(view=None))


@m('clip')
def a_clip(I, l, c, name, args, kwargs, node):
    from .libnp import clip
    s = sig(args, kwargs, 'min', 'max')
    return clip(I, l, s['min'], s['max'])


@m('round')
def a_round(I, l, c, name, args, kwargs, node):
    return call_ext(I, 'numpy.round', [l] + list(args), {k: v for k, v in kwargs.items() if k != 'keep_attrs'}, node)


@m('where')
def a_where(I, l, c, name, args, kwargs, node):
    s = sig(args, kwargs, 'cond', 'other', 'drop')
    if s['drop'] is not None and s['drop'] is not FALSE:
        return lab(I, l, c, 'wheredrop', [pk(I, s['cond']), pk(I, s['drop'])])
    from .libnp import where3
    oth = s['other'] if s['other'] is not None else T.NAN
    r = where3(I, s['cond'], l, oth, kind=c.kind)
    return setsrc(I, r, I.attrs_term(c))


def setsrc(I, r, src):
    for x in leaves(r):
        c = cellof(I, x)
        if c is not None and not c.roots:
            I.heap[x.id] = c.with_(attrsrc=src)
    return r


@m('isnull', 'notnull')
def a_isnull(I, l, c, name, args, kwargs, node):
    r = call_ext(I, 'numpy.isnan', [l], {}, node)
    if name == 'notnull':
        r = I.lib.unary(I, 'Invert', r, node)
    return r


@m('fillna')
def a_fillna(I, l, c, name, args, kwargs, node):
    from .libnp import where3
    nan = call_ext(I, 'numpy.isnan', [l], {}, node)
    return where3(I, nan, args[0] if args else kwargs['value'], l, kind=c.kind)


@m('isin')
def a_isin(I, l, c, name, args, kwargs, node):
    t = seqorval(I, args[0])
    v = T.lift(lambda x: H('isin', (x, t), kind='bool'), [c.val], ew=False)
    return build(I, v, [l])


@m('conj', 'conjugate')
def a_conj(I, l, c, name, args, kwargs, node):
    return call_ext(I, 'numpy.conj', [l], {}, node)


@m('item')
def a_item(I, l, c, name, args, kwargs, node):
    if not args:
        return T.lift(lambda x: x if ops.scalarish(x) or x.op in ('item', 'call', 'min', 'max', 'sum', 'mean', 'size') else H('item0', (x,)), [c.val], ew=False)
    return T.lift(lambda x, i: ops.index(x, i), [c.val, I.val(args[0])], ew=False)


@m('tolist')
def a_tolist(I, l, c, name, args, kwargs, node):
    v = c.val
    if isinstance(v, N) and v.op == 'arange1':
        d = I.loopdepth
        dom = H('rng', (v.args[0],))
        return I.new(ListC([('c', dom, (('i', H('idx', (dom,), d, isint=True, kind='int'), TRUE),), TRUE)]))
    return I.new(c.with_(kind='list', roots=frozenset(), view=None, lazy=False, dims=None, coords=None))


@m('to_numpy', '__array__')
def a_tonumpy(I, l, c, name, args, kwargs, node):
    return I.arr(c.val, 'np', [c], roots=c.roots, view=(l, None), lazy=False)


@m('fill')
def a_fill(I, l, c, name, args, kwargs, node):
    setitem(I, l, SliceV(NONE, NONE, NONE), args[0], node)
    return NONE


@m('sort', 'partition', 'resize', 'put', 'setflags', 'itemset')
def a_sort(I, l, c, name, args, kwargs, node):
    I.mutate_arr(l, T.lift(lambda x: H(name, (x,) + tuple(pk(I, a) for a in args)), [c.val], ew=False), node, name + '()')
    return NONE


# ================================================================= reductions
def reduct(I, l, c, name, args, kwargs, node):
    from . import libnp
    if c.kind in ('np', 'np0', 'duck', 'npscalar', 'index', 'list'):
        return call_ext(I, 'numpy.' + name, [l] + list(args), kwargs, node)
    if c.kind in ('gb', 'gbds'):
        s = sig(args, kwargs, 'dim', 'skipna')
        ax = libnp.axisterm(I, None, None, s['dim'])
        ex = ([H('kw', (ax,), 'dim')] if ax is not None else []) + ([H('kw', (pk(I, s['skipna']),), 'skipna')] if not isnone(s['skipna']) else [])
        ex += extras(I, s['*'], ignore=('keep_attrs',))
        v = T.lift(lambda x: H('g:' + name, (x,) + tuple(ex), kind='bool' if name in ('any', 'all') else None), [c.val], ew=False)
        return I.arr(v, 'ds' if c.kind == 'gbds' else 'da', [c], attrsrc=keepattrs(I, c, kwargs))
    s = sig(args, kwargs, 'dim', 'axis')
    kw = {k: v for k, v in s['*'].items() if k not in ('keep_attrs',) and not isnone(v)}
    ax = libnp.axisterm(I, None, s['axis'], s['dim'])
    ex = extras(I, kw)
    if name in ('any', 'all') and ax is None and not ex:
        v = libnp.allany(I, I._packed(c.val), name == 'any')
    elif ex or name in ('quantile',):
        v = T.lift(lambda x: H(name, (x,) + ((ax,) if ax is not None else ()) + tuple(ex)), [c.val], ew=False)
    else:
        v = T.lift(lambda x: libnp.red(name, x, ax), [c.val], ew=False)
    kw = {}
    if c.coords is not None or c.dims is not None:
        v = T.lift(lambda x, f: H('redlab', (x, f)) if False else x, [v, v], ew=False)
    return I.arr(v, c.kind if c.kind != 'any' else 'any', [c], attrsrc=keepattrs(I, c, kwargs), **kw)


for _n in 'sum mean min max any all prod std var median argmax argmin cumsum cumprod count ptp'.split():
    METHODS[_n] = reduct


@m('first', 'last')
def gb_first(I, l, c, name, args, kwargs, node):
    return reduct(I, l, c, name, args, kwargs, node)


# ================================================================= shape
def npdeleg(fn):
    def f(I, l, c, name, args, kwargs, node):
        return call_ext(I, fn, [l] + list(args), kwargs, node)
    return f


for _n in 'swapaxes squeeze ravel repeat take dot diagonal'.split():
    METHODS[_n] = npdeleg('numpy.' + _n)


@m('flatten')
def a_flatten(I, l, c, name, args, kwargs, node):
    r = call_ext(I, 'numpy.ravel', [l] + list(args), kwargs, node)
    for x in leaves(r):
        cc = cellof(I, x)
        I.heap[x.id] = cc.with_(roots=frozenset(), view=None)
    return r


@m('view')
def a_view(I, l, c, name, args, kwargs, node):
    if c.kind in DA or args or kwargs:
        r = unknown_method(I, l, name, args, kwargs, node)
        for x in leaves(r):
            if cellof(I, x) is not None:
                I.heap[x.id] = I.cell(x).with_(roots=c.roots)
        return r
    return I.arr(c.val, c.kind, [c], roots=c.roots, view=(l, None))


@m('squeeze')
def a_squeeze(I, l, c, name, args, kwargs, node):
    if c.kind in DA:
        ex = [seqorval(I, a) for a in args] + extras(I, kwargs)
        return lab(I, l, c, 'squeeze', ex)
    return call_ext(I, 'numpy.squeeze', [l] + list(args), kwargs, node)


@m('reshape')
def a_reshape(I, l, c, name, args, kwargs, node):
    sh = args[0] if len(args) == 1 else Tup(args)
    return call_ext(I, 'numpy.reshape', [l, sh], kwargs, node)


@m('transpose')
def a_transpose(I, l, c, name, args, kwargs, node):
    if c.kind in DA:
        from .libattr import dims_of
        dt = I._packed(I.val(dims_of(I, c)))
        al = [I._packed(seqterm(I, a)) for a in args]
        if len(al) == 1 and ((al[0].op == 'star' and al[0].args[0].fp == dt.fp) or al[0].fp == dt.fp):
            return I.new(c.with_(view=None))
        ex = [H('kw', (H('tuple', al),), 'dims')] if al else []
        if not al:
            return call_ext(I, 'numpy.transpose', [l], {}, node)
        return lab(I, l, c, 'transpose', ex + extras(I, kwargs), roots=c.roots)
    if len(args) > 1:
        args = [Tup(args)]
    return call_ext(I, 'numpy.transpose', [l] + list(args), kwargs, node)


# ================================================================= labelled operations
@m('isel', 'sel', 'head', 'tail', 'thin')
def a_isel(I, l, c, name, args, kwargs, node):
    ents, left = dd(I, args[:1], kwargs, ('drop', 'method', 'tolerance', 'missing_dims'))
    ex = extras(I, {k: v for k, v in left.items() if v is not FALSE})
    if ents is None:
        return lab(I, l, c, name, [pk(I, a) for a in args] + ex)
    if not ents:
        return I.new(c.with_(view=None))
    # one dimension at a time
    v = fullv(I, c)
    basic = True
    from .libattr import basic_index
    for k, w in sorted(ents, key=lambda e: pk(I, e[0]).fp):
        kt, wt = pk(I, k), idx(I, w)
        if wt.op == 'tuple':
            wt = I._packed(seqterm(I, w))
        if name == 'isel' and wt.fp == ops.FULL.fp:
            continue
        basic = basic and (name == 'sel' or basic_index(wt))
        v = T.lift(lambda x: H(name, (x, kt, wt) + tuple(ex)), [v], ew=False)
    if I.trydepth:
        I.implicit_fail(I._packed(v), '?', node)
    return I.arr(v, c.kind, [c], attrsrc=I.attrs_term(c), roots=c.roots if basic else frozenset(), view=None)


@m('interp', 'reindex')
def a_interp(I, l, c, name, args, kwargs, node):
    s = sig(args, kwargs, 'coords', 'method', 'assume_sorted', 'kwargs')
    known = ('method', 'assume_sorted', 'kwargs', 'method_non_numeric')
    ents, _ = dd(I, [s['coords']] if s['coords'] is not None else [], s['*'])
    ex = []
    for k in known:
        v = s.get(k)
        if v is None or v is NONE:
            continue
        if k == 'assume_sorted' and v is FALSE:
            continue
        if k == 'method' and cstr(v) == 'linear':
            continue
        if k == 'kwargs' and isinstance(v, Ref) and isinstance(I.cell(v), DictC) and not I.cell(v).entries and I.cell(v).base is None:
            continue
        ex.append(H('kw', (pk(I, v),), k))
    if ents is None:
        d = T.lift(lambda a: H('dictarg', (a,)), [I.val(s['coords'])], ew=False)
        t = I._packed(d)
    else:
        t = ddterm(I, ents, lambda g: I._packed(I.full(g)) if cells_of(I, [g]) else pk(I, g))
    r = lab(I, l, c, name, [t] + ex)
    if I.trydepth:
        I.implicit_fail(pk(I, r), '?', node)
    return r


@m('rename')
def a_rename(I, l, c, name, args, kwargs, node):
    a = args[0] if args else kwargs.get('new_name_or_name_dict')
    if a is not None and (isnone(a) or (isinstance(a, N) and (I.kind(a) == 'str' or a.kind == 'str'))):
        return I.new(c.with_(name=a, view=None, roots=c.roots))
    if isinstance(a, Ite):
        return I.over(a, lambda x: a_rename(I, l, c, name, [x], {}, node))
    ents, _ = dd(I, args, kwargs)
    if ents is None:
        dc = I.cell(a) if isinstance(a, Ref) else None
        t = pk(I, a)
    else:
        t = ddterm(I, [(k, v) for k, v in ents if pk(I, k).fp != pk(I, v).fp])
        if not t.args:
            return I.new(c.with_(view=None))
    return lab(I, l, c, 'rename', [t])


@m('assign_coords')
def a_assign_coords(I, l, c, name, args, kwargs, node):
    ents, _ = dd(I, args, kwargs)
    if ents is None:
        a = args[0] if args else kwargs.get('coords')
        cc = c.with_(view=None, roots=frozenset())
        # merge of another mapping
        dcell = I.cell(a) if isinstance(a, Ref) else None
        t = pk(I, a)
        v = T.lift(lambda x: x if (t.op == 'coords' and t.args[0].fp in ops.coordsrc(x)) else H('assign_coords', (x, t)), [fullv(I, c)], ew=False)
        return I.new(cc.with_(val=v, dims=None, coords=None, attrsrc=I.attrs_term(c)))
    r = c.with_(view=None, roots=frozenset())
    if r.attrs is not None:
        n = I.new(DictC(None, ()))
        I.over(r.attrs, lambda o: I.lib.dict_update(I, n, o, node))
        r = r.with_(attrs=n)
    for k, v in ents:
        r = with_coord(I, r, k, v)
    return I.new(r)


@m('assign_attrs')
def a_assign_attrs(I, l, c, name, args, kwargs, node):
    n = I.new(DictC(None, ()))
    I.over(attrs_ref(I, l), lambda o: I.lib.dict_update(I, n, o, node))
    c = I.cell(l)
    for a in args:
        I.over(a, lambda o: I.lib.dict_update(I, n, o, node))
    for k, v in kwargs.items():
        if k == '**':
            I.over(v, lambda o: I.lib.dict_update(I, n, o, node))
        else:
            I.lib.dict_set(I, n, const(k), v, node)
    return I.new(c.with_(attrs=n, view=(l, None), roots=c.roots))


@m('drop_attrs')
def a_drop_attrs(I, l, c, name, args, kwargs, node):
    return I.new(c.with_(attrs=I.new(DictC(None, ())), attrsrc=H('attrs', (), 'none'), view=(l, None)))


@m('drop_vars', 'drop', 'reset_coords', 'drop_sel', 'drop_isel', 'set_coords', 'set_index', 'swap_dims', 'expand_dims', 'stack', 'unstack', 'broadcast_like', 'sortby', 'shift', 'roll', 'diff', 'pad',
   'differentiate', 'integrate', 'ffill', 'bfill', 'interpolate_na', 'rolling', 'coarsen', 'rename_axis', 'quantile', 'rank', 'polyfit', 'reindex_like', 'interp_like', 'combine_first',
   'astype_', 'convert_calendar', 'groupby_bins', 'to_unstacked_dataset', 'reset_index', 'broadcast_equals', 'map_', 'identical', 'equals', 'dropna')
def a_label(I, l, c, name, args, kwargs, node):
    if c.kind == 'index' and name == 'shift':
        s = sig(args, kwargs, 'periods', 'freq')
        return derived_index(I, c, H('ishift', (pk(I, l), pk(I, s['periods']) if s['periods'] is not None else T.ONE, pk(I, s['freq']) if s['freq'] is not None else NONE)))
    if name == 'dropna':
        s = sig(args, kwargs, 'dim', 'how', 'thresh')
        ex = [seqorval(I, s['dim'])]
        if s['how'] is not None and cstr(s['how']) != 'any':
            ex.append(H('kw', (pk(I, s['how']),), 'how'))
        ex += extras(I, {'thresh': s['thresh']} if s['thresh'] is not None else {})
        return lab(I, l, c, 'dropna', ex)
    if name in ('drop', 'drop_vars', 'reset_coords'):
        op = 'drop_vars' if name != 'reset_coords' else name
        kw = {k: v for k, v in kwargs.items() if not (k == 'errors' and cstr(v) == 'raise') and k != 'names'}
        al = list(args) + ([kwargs['names']] if 'names' in kwargs else [])
        return lab(I, l, c, op, [nm(I, a) for a in al] + extras(I, kw))
    if name in ('expand_dims', 'swap_dims', 'stack', 'unstack'):
        if c.kind in ('np', 'np0', 'duck'):
            return unknown_method(I, l, name, args, kwargs, node)
        ents, left = dd(I, args, kwargs, ('axis', 'create_index'))
        if ents is not None:
            return lab(I, l, c, name, [ddterm(I, ents, lambda g: seqorval(I, g))] + extras(I, left))
        return lab(I, l, c, name, [nm(I, a) if isinstance(a, (N, Tup)) or I.kind(a) == 'list' else pk(I, a) for a in args] + extras(I, kwargs))
    ents, left = dd(I, [], kwargs)
    return lab(I, l, c, name, [seqorval(I, a) for a in args] + [H('kw', (seqorval(I, v),), k) for k, v in sorted(kwargs.items()) if not isnone(v)])


def nm(I, a):
    t = I._packed(seqterm(I, a))
    if t.op == 'tuple' and len(t.args) == 1:
        t = t.args[0]
    return t


def derived_index(I, c, v):
    return I.arr(v, 'index', [c])


@m('append', 'union', 'insert')
def a_append(I, l, c, name, args, kwargs, node):
    if c.kind != 'index':
        return unknown_method(I, l, name, args, kwargs, node)
    return derived_index(I, c, H('i' + name, (pk(I, l),) + tuple(pk(I, a) for a in args)))


@m('to_dataset', 'to_dataarray', 'to_array')
def a_conv(I, l, c, name, args, kwargs, node):
    op = 'to_dataarray' if name == 'to_array' else name
    return lab(I, l, c, op, [pk(I, a) for a in args] + extras(I, kwargs), kind='ds' if op == 'to_dataset' else 'da')


@m('resample')
def a_resample(I, l, c, name, args, kwargs, node):
    ents, left = dd(I, args, kwargs, ('closed', 'label', 'offset', 'origin', 'skipna', 'boundary_type'))
    if ents is None or len(ents) != 1:
        return NotImplemented
    k, f = ents[0]
    v = T.lift(lambda x, a, b: H('resample', (x, a, b) + tuple(extras(I, left))), [fullv(I, c), I.val(k), I.val(f)], ew=False)
    return I.arr(v, 'gbds' if c.kind == 'ds' else 'gb', [c], attrsrc=I.attrs_term(c))


@m('groupby')
def a_groupby(I, l, c, name, args, kwargs, node):
    s = sig(args, kwargs, 'group', 'squeeze')
    g = s['group']
    if g is None:
        return NotImplemented
    full = fullv(I, c)

    def key(x, k):
        if k.op == 'const' and isinstance(k.param, str):
            if '.' in k.param:
                a, b = k.param.split('.', 1)
                return H('dt.' + b, (ops.item(x, const(a)),))
            return ops.item(x, k)
        if k.op == 'strcat' and k.args and k.args[-1].op == 'const' and isinstance(k.args[-1].param, str) and k.args[-1].param.startswith('.'):
            rest = k.args[:-1]
            if len(rest) == 1:
                return H('dt' + k.args[-1].param, (ops.item(x, rest[0]),))
        if k.kind == 'str' or k.op == 'strcat':
            return ops.item(x, k)
        return k
    v = T.lift(lambda x, k: H('groupby', (x, key(x, k))), [full, I.val(g)], ew=False)
    return I.arr(v, 'gbds' if c.kind == 'ds' else 'gb', [c], attrsrc=I.attrs_term(c))


@m('map', 'apply', 'map_groups')
def a_map(I, l, c, name, args, kwargs, node):
    if c.kind not in ('gb', 'gbds') or not args:
        return unknown_method(I, l, name, args, kwargs, node)
    d = I.loopdepth
    I.loopdepth += 1
    sub = I.new(Arr(T.lift(lambda x: H('grp', (x,), d), [c.val], ew=False), 'ds' if c.kind == 'gbds' else 'da', lazy=c.lazy, attrsrc=I.attrs_term(c)))
    r = I.call(args[0], [sub] + list(args[1:]), {k: v for k, v in kwargs.items() if k not in ('shortcut', 'args')}, node)
    I.loopdepth -= 1
    v = T.lift(lambda x, b: H('gmap', (x, b)), [c.val, I.val(r)], ew=False)
    return I.arr(v, 'ds' if c.kind == 'gbds' else 'da', [c])


@m('weighted')
def a_weighted(I, l, c, name, args, kwargs, node):
    w = args[0] if args else kwargs.get('weights')
    return T.lift(lambda x, y: H('weighted', (x, y), c.kind), [fullv(I, c), I.val(w)], ew=False)


@m('pipe')
def a_pipe(I, l, c, name, args, kwargs, node):
    return I.call(args[0], [l] + list(args[1:]), kwargs, node)


@m('dot')
def a_dot(I, l, c, name, args, kwargs, node):
    if c.kind in DA:
        return call_ext(I, 'xarray.dot', [l] + list(args), kwargs, node)
    return call_ext(I, 'numpy.dot', [l] + list(args), kwargs, node)


@m('get')
def a_get(I, l, c, name, args, kwargs, node):
    return NotImplemented


@m('get_index')
def a_get_index(I, l, c, name, args, kwargs, node):
    return I.new(Arr(T.lift(lambda x: H('indexof', (ops.item(x, pk(I, args[0])),)), [fullv(I, c)], ew=False), 'index', attrsrc=H('attrs', (), 'none')))


@m('get_axis_num')
def a_get_axis_num(I, l, c, name, args, kwargs, node):
    d = kwargs.get('dim', args[0] if args else None)
    if c.kind in ('da', 'uxda') and d is not None and isinstance(I.val(d), N) and not cells_of(I, [d]):
        return I.lib.call_method(I, getattr_(I, l, 'dims', node), 'index', [d], {}, node)
    return unknown_call(I, name, [l] + list(args), kwargs, node)


@m('items', 'keys', 'values')
def a_items(I, l, c, name, args, kwargs, node):
    if c.kind in ('ds', 'uxds'):
        return I.lib.IterV(name, (T.lift(lambda x: H('data_vars', (x,)), [fullv(I, c)], ew=False),))
    return NotImplemented


@m('squeeze_', 'map_blocks')
def a_map_blocks(I, l, c, name, args, kwargs, node):
    return call_ext(I, 'xarray.map_blocks', [args[0], l] + list(args[1:]), kwargs, node)


@m('min_', 'to_series', 'to_pandas', 'to_index')
def a_toindex(I, l, c, name, args, kwargs, node):
    if name == 'to_index':
        return I.new(Arr(T.lift(lambda x: H('indexof', (x,)), [c.val], ew=False), 'index'))
    return NotImplemented


# ---------------------------------------------------------------- other known pure labelled methods
@m('zonal_mean', 'rank', 'polyfit', 'integrate', 'thin', 'head', 'tail', 'drop_duplicates')
def pure_labelled(I, l, c, name, args, kwargs, node):
    ex = [seqorval(I, a) for a in args] + [H('kw', (seqorval(I, v),), k) for k, v in sorted(kwargs.items())]
    return lab(I, l, c, 'm:' + name, ex, attrsrc=H('attrs', (pk(I, l),), 'm:' + name))
