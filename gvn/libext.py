"""Operators, dispatch of external calls, builtins."""
import ast
from .values import *  # noqa
from . import terms as T
from . import ops
from .terms import H, const

ARRK = {'da', 'ds', 'np', 'np0', 'duck', 'index', 'gb', 'gbds', 'npscalar', 'uxda', 'uxds', 'any'}


# ---------------------------------------------------------------- helpers
def cellof(I, l):
    if isinstance(l, Ref):
        c = I.cell(l)
        if isinstance(c, Arr):
            return c
    return None


def cells_of(I, gs):
    out = []
    for g in gs:
        for l in leaves(g):
            c = cellof(I, l)
            if c is not None:
                out.append(c)
    return out


def outkind(cells):
    ks = {c.kind for c in cells}
    if 'gbds' in ks:
        return 'ds'
    for k in ('uxds', 'uxda', 'ds'):
        if k in ks:
            return 'ds' if k == 'uxds' else 'da' if k == 'uxda' else k
    if 'gb' in ks or 'da' in ks:
        return 'da'
    if 'duck' in ks:
        return 'duck'
    if 'any' in ks:
        return 'any'
    if 'index' in ks:
        return 'index'
    if ks and ks <= {'np0', 'npscalar'}:
        return 'np0'
    return 'np'


def build(I, v, gs, kind=None, lazy=None, attrsrc=None):
    """wrap an element-wise result of operands gs"""
    cells = cells_of(I, gs)
    if not cells:
        return v
    k = kind or outkind(cells)
    das = [c for c in cells if c.kind in ('da', 'ds', 'uxda', 'uxds')]
    kw = {}
    if len(das) == 1 and k in ('da', 'ds'):
        kw = dict(dims=das[0].dims, coords=das[0].coords)
    if lazy is not None:
        kw['lazy'] = lazy
    if attrsrc is not None:
        kw['attrsrc'] = attrsrc
    return I.arr(v, k, cells, **kw)


ew_result = build


def split(I, gs, f):
    """resolve control-gated references: f is called with plain operands"""
    for i, g in enumerate(gs):
        if isinstance(g, Ite) and any(not isinstance(l, N) for l in leaves(g)):
            return I.over(g, lambda l: split(I, list(gs[:i]) + [l] + list(gs[i + 1:]), f))
    return f(list(gs))


def opvals(I, gs):
    das = [c for c in cells_of(I, gs) if c.kind in ('da', 'ds')]
    out = []
    for g in gs:
        c = cellof(I, g) if not isinstance(g, Ite) else None
        if c is not None and len(das) > 1 and c.kind in ('da', 'ds') and (c.dims is not None or c.coords is not None):
            out.append(I.full_cell(c))
        else:
            out.append(I.val(g))
    return out


def ew(I, f, gs, node=None, kind=None, lazy=None):
    def go(gs):
        v = T.lift(f, opvals(I, gs), ew=True)
        return build(I, v, gs, kind, lazy)
    return split(I, gs, go)


def isnone(g):
    return g is None or (isinstance(g, N) and g is NONE)


def cstr(g):
    return g.param if isinstance(g, N) and g.op == 'const' and isinstance(g.param, str) else None


def cint(g):
    return int(g.param) if isinstance(g, N) and T.isnum(g) and g.param.denominator == 1 else None


def cbool(g):
    """True/False/None(unknown)"""
    if g is TRUE:
        return True
    if g is FALSE or g is NONE:
        return False
    return None


def sig(args, kwargs, *names):
    """bind to names; missing -> None; leftovers in '*'"""
    out = {}
    a = list(args)
    kw = dict(kwargs)
    for n in names:
        if a:
            out[n] = a.pop(0)
        else:
            out[n] = kw.pop(n, None)
    out['*'] = kw
    out['*args'] = a
    return out


def seqterm(I, g):
    """tuple term of a known sequence (list and tuple unified), else its term"""
    def f(l):
        from .lib import enumerate_known
        if isinstance(l, (Ref, Tup)):
            items = enumerate_known(I, l, 400)
            if items is not None and not any(isinstance(x, tuple) for x in items):
                return T.lift(lambda *a: H('tuple', a), [I._packed(I.val(x)) for x in items], ew=False)
        v = I._val1(l)
        if isinstance(v, N) and v.op == 'list' and not any(a.op in ('comp', 'compif', 'cond', 'map', 'star') for a in v.args):
            return H('tuple', v.args)
        return v
    return T.gmap(f, g)


def dimsterm(I, g):
    """dims argument -> tuple term"""
    if isnone(g):
        return NONE

    def f(l):
        if isinstance(l, N) and (I.kind(l) == 'str'):
            return H('tuple', (l,))
        t = seqterm(I, l)
        return t
    return T.gmap(f, g)


def pk(I, g):
    return I._packed(I.val(g))


def extras(I, kw, ignore=()):
    """remaining keyword arguments as a sorted tuple of terms"""
    out = []
    for k in sorted(kw):
        if k in ignore:
            continue
        v = kw[k]
        if isnone(v) and k != '**':
            continue
        out.append(H('kw', (pk(I, v),), k))
    return out


def taint_extra(ex, what):
    return frozenset(['unmodelled argument of ' + what]) if ex else None


# ---------------------------------------------------------------- arithmetic
def _num(a):
    if a is TRUE:
        return T.ONE
    if a is FALSE:
        return T.ZERO
    return a


def floordiv(a, b):
    return T.fn('floor', T.div(a, b))


def mod(a, b):
    if T.isnum(a) and T.isnum(b) and b.param != 0:
        return const(a.param % b.param)
    return H('mod', (a, b), isint=a.isint and b.isint, kind='int' if a.isint and b.isint else None)


ARITH = {'Add': T.add, 'Sub': T.sub, 'Mult': T.mul, 'Div': T.div, 'Pow': T.power, 'FloorDiv': floordiv, 'Mod': mod}


def arith(op):
    f = ARITH[op]

    def g(a, b):
        a, b = _num(a), _num(b)
        for x in (a, b):
            if x.op == 'nan':
                return T.NAN
        return f(a, b)
    return g


def isboolish(I, g):
    for l in leaves(g):
        if isinstance(l, N):
            if l.kind == 'bool' or l in (TRUE, FALSE) or l.op in ('not',):
                continue
            return False
        c = cellof(I, l)
        if c is None:
            return False
        for x in leaves(c.val):
            if not (isinstance(x, N) and (x.kind == 'bool' or x in (TRUE, FALSE) or x.op == 'not')):
                return False
    return True


def boolop(I, op, a, b):
    arr = bool(cells_of(I, [a, b]))

    def go(gs):
        x, y = [I.truth(v, ew=arr) for v in opvals(I, gs)]
        r = T.gand(x, y) if op == 'BitAnd' else T.gor(x, y) if op == 'BitOr' else T.ite(x, T.gnot(y), y)
        return build(I, r, gs)
    return split(I, [a, b], go)


def binary(I, op, a, b, node):
    def go(gs):
        a, b = gs
        return _binary(I, op, a, b, node)
    return split(I, [a, b], go)


def _binary(I, op, a, b, node):
    from . import lib
    ka, kb = I.kinds(a), I.kinds(b)
    ca = I.cell(a) if isinstance(a, Ref) else None
    cb = I.cell(b) if isinstance(b, Ref) else None
    la = isinstance(ca, ListC) and not isinstance(ca, SetC)
    lb = isinstance(cb, ListC) and not isinstance(cb, SetC)
    if op in ('BitOr',) and isinstance(a, (Ext,)) or (isinstance(a, N) and a.op == 'union'):
        na, nb = lib.class_names(I, a), lib.class_names(I, b)
        if na and nb:
            return H('union', (), tuple(na + nb))
    if isinstance(ca, SetC) and isinstance(cb, (SetC, ListC)):
        if op == 'BitOr':
            r = I.new(SetC(ca.segs))
            lib.set_update(I, r, b, node)
            return r
        t = T.lift(lambda x, y: H('setop', (x, y), op), [I.val(a), I.val(b)], ew=False)
        return I.new(SetC([('i', T.gmap(lambda x: H('star', (x,)), t), TRUE)]))
    if isinstance(ca, DictC) and op == 'BitOr':
        r = I.new(DictC(ca.base, ca.entries))
        lib.dict_update(I, r, b, node)
        return r
    if op == 'Add':
        if la and lb:
            return I.new(ListC(ca.segs + cb.segs))
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if (isinstance(a, Tup) or ka == {'tuple'} or _tupterm(a)) and (isinstance(b, Tup) or kb == {'tuple'} or _tupterm(b)):
            def cat(x, y):
                xs = x.args if x.op == 'tuple' else (H('star', (x,)),)
                ys = y.args if y.op == 'tuple' else (H('star', (y,)),)
                return H('tuple', xs + ys, kind='tuple')
            return T.lift(cat, [I.val(a), I.val(b)], ew=False)
        if ka == {'str'} or kb == {'str'}:
            if ka <= {'str', 'any', 'scalar?'} and kb <= {'str', 'any', 'scalar?'}:
                return lib.strcat([I.val(a), I.val(b)])
            bad = [g for g in (a, b) if isinstance(g, N) and g.op == 'const' and not isinstance(g.param, str)]
            if bad:
                I.do_raise('TypeError', I.live, node, None, implicit=True)
                I.live = FALSE
                return T.opaque('dead')
            return lib.strcat([I.val(a), I.val(b)])
    if op == 'Mult' and (la or lb or isinstance(a, Tup) or isinstance(b, Tup)):
        s, n = (a, b) if (la or isinstance(a, Tup)) else (b, a)
        if cellof(I, n) is None:
            k = cint(n)
            items = lib.enumerate_known(I, s, 200)
            if k is not None and items is not None and 0 <= k * len(items) < 2000:
                items = list(items) * k
                return Tup(items) if isinstance(s, Tup) else I.new(ListC([('i', x, TRUE) if not isinstance(x, tuple) else ('i',) + x for x in items]))
            t = T.lift(lambda x, y: H('repeat', (x, y)), [I.val(s), I.val(n)], ew=False)
            return t
    if op == 'Mod' and ka == {'str'}:
        r = lib.percent(I, a, b)
        if r is not None:
            return r
        return T.lift(lambda x, y: H('fmt%', (x, y), kind='str'), [I.val(a), I.val(b)], ew=False)
    for g in (a, b):
        if g is NONE:
            I.do_raise('TypeError', I.live, node, None, implicit=True)
            I.live = FALSE
            return T.opaque('dead')
    if op in ('BitAnd', 'BitOr', 'BitXor') and (isboolish(I, a) or isboolish(I, b)):
        return boolop(I, op, a, b)
    if op in ARITH:
        if la or lb:
            # list with array: numpy conversion
            pass
        return ew(I, arith(op), [a, b], node)
    if op == 'MatMult':
        return build(I, T.lift(lambda x, y: H('matmul', (x, y)), [I.val(a), I.val(b)], ew=False), [a, b])
    return ew(I, lambda x, y: H('op' + op, (x, y), isint=x.isint and y.isint), [a, b], node)


def _tupterm(g):
    return isinstance(g, N) and g.op in ('tuple', 'dims', 'shape')


def unary(I, op, v, node):
    def go(gs):
        a = gs[0]
        if op == 'USub':
            return ew(I, lambda x: T.neg(_num(x)), [a])
        if op == 'UAdd':
            return ew(I, lambda x: x, [a])
        if op == 'Invert':
            if isboolish(I, a):
                c = cells_of(I, [a])
                return build(I, T.gnot(I.truth(I.val(a), ew=bool(c))), [a])
            return ew(I, lambda x: H('invert', (x,)), [a])
        return T.opaque('unary ' + op)
    return split(I, [v], go)


# ---------------------------------------------------------------- names
ALIAS = {
    'math': 'math', 'numpy.absolute': 'numpy.abs', 'builtins.abs': 'numpy.abs', 'numpy.fabs': 'numpy.abs',
    'numpy.fft._pocketfft.fft': 'numpy.fft.fft', 'scipy.fft.fft': 'numpy.fft.fft', 'scipy.fft.ifft': 'numpy.fft.ifft',
    'numpy.asanyarray': 'numpy.asarray', 'numpy.ascontiguousarray': 'numpy.asarray', 'numpy.asfarray': 'numpy.asarray',
    'numpy.radians': 'numpy.deg2rad', 'numpy.degrees': 'numpy.rad2deg', 'math.radians': 'numpy.deg2rad', 'math.degrees': 'numpy.rad2deg',
    'numpy.acos': 'numpy.arccos', 'numpy.asin': 'numpy.arcsin', 'numpy.atan': 'numpy.arctan', 'numpy.pow': 'numpy.power',
    'numpy.permute_dims': 'numpy.transpose', 'numpy.concat': 'numpy.concatenate', 'numpy.invert': 'numpy.logical_not',
    'numpy.bitwise_not': 'numpy.logical_not', 'numpy.fmin': 'numpy.fmin', 'numpy.true_divide': 'numpy.divide',
    'numpy.amin': 'numpy.min', 'numpy.amax': 'numpy.max', 'numpy.alltrue': 'numpy.all', 'numpy.row_stack': 'numpy.vstack',
    'math.acos': 'numpy.arccos', 'math.asin': 'numpy.arcsin', 'math.atan': 'numpy.arctan',
    'xarray.core.dataarray.DataArray': 'xarray.DataArray', 'xarray.core.dataset.Dataset': 'xarray.Dataset',
    'xarray.core.formatting.DataArray': 'xarray.DataArray', 'xarray.core.computation.where': 'xarray.where',
    'xarray.computation.computation.where': 'xarray.where',
    'xarray.ufuncs': 'numpy', 'numpy.float_': 'numpy.float64', 'numpy.double': 'numpy.float64', 'numpy.nan': 'numpy.nan',
    'numpy.NaN': 'numpy.nan', 'numpy.NAN': 'numpy.nan', 'math.nan': 'numpy.nan', 'math.inf': 'numpy.inf', 'math.pi': 'numpy.pi', 'math.e': 'numpy.e',
    'numpy.bool_': 'builtins.bool', 'numpy.bool': 'builtins.bool', 'numpy.object_': 'builtins.object',
    'xarray.concat': 'xarray.concat', 'xarray.core.concat.concat': 'xarray.concat',
    'scipy.constants.pi': 'numpy.pi',
}
for _n in 'sin cos tan exp log log10 log2 log1p expm1 sqrt floor ceil isnan isinf isfinite trunc sinh cosh tanh fabs'.split():
    ALIAS['math.' + _n] = 'numpy.' + ('abs' if _n == 'fabs' else _n)
    ALIAS['xarray.ufuncs.' + _n] = 'numpy.' + _n
    ALIAS['dask.array.' + _n] = 'numpy.' + _n


def canon(name):
    return ALIAS.get(name, name)


# ---------------------------------------------------------------- dispatch
def call_ext(I, name, args, kwargs, node):
    name = canon(name)
    from . import libnp, libxr, libbi
    if '**' in kwargs:
        kwargs = dict(kwargs)
    inplace(I, name, args, kwargs, node)
    for tab in (libbi.TABLE, libnp.TABLE, libxr.TABLE):
        f = tab.get(name)
        if f is not None:
            r = f(I, args, kwargs, node)
            if r is not NotImplemented:
                return r
    for pre in (libbi, libnp, libxr):
        r = pre.generic(I, name, args, kwargs, node)
        if r is not NotImplemented:
            return r
    return unknown_call(I, name, args, kwargs, node)


UFUNC2 = set('add subtract multiply divide true_divide floor_divide power float_power mod remainder fmod maximum minimum fmax fmin hypot arctan2 logaddexp '
             'copysign less less_equal greater greater_equal equal not_equal logical_and logical_or logical_xor bitwise_and bitwise_or heaviside'.split())
UFUNC1 = set('exp sqrt log log10 log2 log1p expm1 sin cos tan arcsin arccos arctan sinh cosh tanh abs absolute fabs floor ceil isnan sign rint trunc conj '
             'isfinite isinf cbrt arcsinh arccosh arctanh negative positive square reciprocal deg2rad rad2deg radians degrees logical_not exp2'.split())


def written(I, g, node, what):
    for l in leaves(g):
        if isinstance(l, Tup):
            for x in l.items:
                written(I, x, node, what)
        else:
            I.mutate_event(l, node, what)


def inplace(I, name, args, kwargs, node):
    """arguments an external function is told to write to"""
    from . import libbi
    short = name.split('.')[-1]
    if libbi.ambient(name, args, kwargs):
        I.ev('nondet', node, what=name)
    if libbi.changes(name):
        I.ev('global', node, name=name, how='process-wide setting or external file write')
    if name in ('builtins.open', 'io.open', 'os.fdopen'):
        libbi.opens(I, args, kwargs, node)
    if not name.startswith('builtins.'):
        o = kwargs.get('out')
        if o is not None and o is not NONE:
            written(I, o, node, 'out=')
        for k in ('overwrite_a', 'overwrite_b', 'overwrite_x', 'overwrite_data', 'overwrite_input'):
            if k in kwargs and kwargs[k] is not T.FALSE and args:
                for a in args[:1] if k != 'overwrite_b' else args[1:2]:
                    written(I, a, node, k)
    if name.startswith('numpy.'):
        n = 1 if short in UFUNC1 else 2 if short in UFUNC2 else None
        if n is not None and len(args) > n and name.count('.') == 1:
            written(I, args[n], node, 'output argument')
        if short == 'at' and name.count('.') == 2 and args:
            written(I, args[0], node, name)
        if short in ('nan_to_num',) and args and 'copy' in kwargs and kwargs['copy'] is not T.TRUE:
            written(I, args[0], node, 'copy=False')
        if short == 'nditer' and args:
            fl = kwargs.get('op_flags', args[2] if len(args) > 2 else None)
            if fl is not None and any(w in T.show(pk(I, fl), 12) for w in ('readwrite', 'writeonly')):
                written(I, args[0], node, 'nditer')
    if not name.startswith(('builtins.', 'numpy.', 'xarray.')) or name in ('builtins.next', 'builtins.setattr', 'builtins.delattr'):
        target = getattr(node, 'args', None)
        if target and (name.startswith('operator.') and short.strip('_') in ('setitem', 'delitem', 'iadd', 'isub', 'imul', 'itruediv', 'ipow', 'ior', 'iand', 'iconcat')
                       or name in ('builtins.next', 'builtins.setattr', 'builtins.delattr')) and not any(isinstance(l, Ref) for l in leaves(args[0])):
            I.writes(target[0], node, name)


def unknown_call(I, name, args, kwargs, node):
    I.ev('unmodelled', node, name=name)
    for a in list(args) + list(kwargs.values()):
        escape(I, a)
    al = [pk(I, a) for a in args] + [H('kw', (pk(I, v),), k) for k, v in sorted(kwargs.items())]
    t = frozenset(['unmodelled call ' + name])
    for a in al:
        t |= a.taint
    r = H('call', al, name, taint=t)
    if I.trydepth:
        I.implicit_fail(r, '?', node)
    cs = cells_of(I, list(args) + list(kwargs.values()))
    if cs:
        return I.arr(r, 'any', cs)
    return r


def pure_call(I, name, al, kind=None, srcs=(), lazy=None, arrkind=None, isint=False):
    """call of a modelled, effect-free external operation"""
    r = H('call', al, name, kind=kind, isint=isint)
    if arrkind:
        kw = {} if lazy is None else {'lazy': lazy}
        return I.arr(r, arrkind, srcs, **kw)
    return r


def escape(I, g):
    """an unmodelled callee may hold/alter a mutable argument"""
    for l in leaves(g):
        if isinstance(l, Ref):
            c = I.cell(l)
            if isinstance(c, (ListC, DictC)) and not getattr(c, 'roots', None):
                pass


def call_term(I, f, args, kwargs, node):
    """call of a value that is only known as a term (a parameter, a result)"""
    if f.op == 'opaque':
        return opaque_call(I, f, args, kwargs, node)
    if f.op == 'ext':
        return call_ext(I, f.param, args, kwargs, node)
    al = [f] + [pk(I, a) for a in args] + [H('kw', (pk(I, v),), k) for k, v in sorted(kwargs.items())]
    if f is NONE:
        I.do_raise('TypeError', I.live, node, None, implicit=True)
        I.live = FALSE
        return T.opaque('dead')
    r = H('apply', al)
    if I.trydepth:
        I.implicit_fail(r, '?', node)
    cs = cells_of(I, list(args) + list(kwargs.values()))
    return I.arr(r, 'any', cs) if cs else r


def opaque_call(I, f, args, kwargs, node):
    v = I._packed(f) if not isinstance(f, N) else f
    I.ev('unmodelled', node, name='call of ' + v.op)
    al = [v] + [pk(I, a) for a in args] + [H('kw', (pk(I, x),), k) for k, x in sorted(kwargs.items())]
    t = frozenset(['unmodelled call'])
    for a in al:
        t |= a.taint
    r = H('apply', al, taint=t)
    if I.trydepth:
        I.implicit_fail(r, '?', node)
    cs = cells_of(I, list(args) + list(kwargs.values()))
    return I.arr(r, 'any', cs) if cs else r


TRANSPARENT = {'functools.wraps', 'functools.lru_cache', 'functools.cache', 'staticmethod', 'typing.no_type_check', 'typing.overload',
               'builtins.staticmethod'}


def cached(f):
    if isinstance(f, Fn):
        return Fn(f.node, f.mod, f.scope, f.name, f.defaults, f.kwdefaults, 'cached')
    return f


def decorate(I, d, f, node):
    if isinstance(d, Ext) and d.name in ('functools.lru_cache', 'functools.cache'):
        return cached(f)
    if isinstance(d, Ext) and d.name in TRANSPARENT:
        return f
    if isinstance(d, Special) and d.name in ('deco', 'lru'):
        return cached(f) if d.name == 'lru' else f
    if isinstance(d, N) and d.op == 'decorator':
        return f
    return I.call(d, [f], {}, node)


def generator_call(I, f, b, node):
    """a generator is summarised by the list of what it yields"""
    from .interp import Frame
    fr = Frame(f.mod, f.name, f.scope)
    fr.vars = b
    r = I.new(ListC(()))
    I.stack.append(I.frame)
    I.frame = fr
    I.depth += 1
    fr.vars['\0y'] = r
    try:
        I.block(f.node.body)
        if I.live is not FALSE:
            fr.rets.append((I.live, NONE, I.snapshot(), None))
        rets = fr.rets
        if not rets:
            I.live = FALSE
            return T.opaque('noreturn')
        g, v, st, _ = rets[-1]
        I.restore(st)
        I.live = g
        for g2, v2, st2, _ in reversed(rets[:-1]):
            cur = I.snapshot()
            lv = T.gor(g2, I.live)
            I.merge(g2, st2, cur)
            I.live = lv
        return r
    finally:
        I.frame = I.stack.pop()
        I.depth -= 1
