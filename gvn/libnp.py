"""Models of numpy (and scipy) functions."""
from .values import *  # noqa
from . import terms as T
from . import ops
from .terms import H, const
from .libext import (sig, pk, cells_of, cellof, build, ew, split, arith, cstr, cint, isnone, seqterm, pure_call, extras,
                     opvals, boolop, outkind, cbool, canon, floordiv, mod, _num)
from .libbi import allany, boolcanon

TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE['numpy.' + n if not n.startswith(('scipy.', 'dask.', 'numpy.')) else n] = f
        return f
    return d


UN = {'exp', 'sqrt', 'log', 'log10', 'log2', 'log1p', 'expm1', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh',
      'abs', 'floor', 'ceil', 'isnan', 'sign', 'rint', 'trunc', 'conj', 'isfinite', 'isinf', 'cbrt', 'arcsinh', 'arccosh', 'arctanh'}
BOOLFN = {'isnan', 'isfinite', 'isinf'}
BIN = {'multiply': 'Mult', 'add': 'Add', 'subtract': 'Sub', 'divide': 'Div', 'power': 'Pow', 'float_power': 'Pow', 'floor_divide': 'FloorDiv',
       'mod': 'Mod', 'remainder': 'Mod'}
CMPF = {'less': 'Lt', 'less_equal': 'LtE', 'greater': 'Gt', 'greater_equal': 'GtE', 'equal': 'Eq', 'not_equal': 'NotEq'}
VALUES = {'numpy.pi': T.PI, 'numpy.nan': T.NAN, 'numpy.newaxis': NONE, 'numpy.inf': T.const(float('inf')), 'numpy.e': T.fn('exp', T.ONE)}


def unfn(name, x):
    x = _num(x)
    if x.op == 'nan' and name not in BOOLFN:
        return x
    if name in ('exp',) and x.op == 'log':
        return x.args[0]
    r = T.fn(name, x)
    if name in BOOLFN and r.kind is None:
        r.kind = 'bool'
    return r


def out_arg(I, kw, r, node):
    """ufunc(..., out=x): writes x"""
    o = kw.get('out')
    if o is not None and o is not NONE:
        for l in leaves(o):
            if cellof(I, l) is not None:
                if T.DTYPES:
                    I.dtwrite(l, I.val(r), node)
                I.mutate_arr(l, I.val(r), node, 'out=')
        return o
    return r


def filler(x):
    """element of a freshly made array"""
    return x.args[1] if x.op in ('full_like', 'full') else T.ZERO if x.op == 'zeros' else H('uninit') if x.op == 'empty' else x


def wherearg(I, kw, r, args):
    """ufunc(..., where=m): elsewhere the output keeps what it had, or is not initialised"""
    w = kw.get('where')
    if w is None or w is TRUE:
        return r
    o = kw.get('out')
    base = T.gmap(filler, I.val(o)) if o is not None and o is not NONE else H('uninit')
    return where3(I, w, r, base, kind='np')


def generic(I, name, args, kwargs, node):
    if not name.startswith(('numpy.', 'scipy.special.')):
        return NotImplemented
    short = name.split('.')[-1]
    kw = {k: v for k, v in kwargs.items() if k not in ('out', 'dtype', 'casting', 'order', 'subok', 'where')}
    n = 1 if short in UN else 2 if short in BIN or short in CMPF else 0
    if n and len(args) == n + 1 and 'out' not in kwargs:
        kwargs = dict(kwargs, out=args[n])
        args = args[:n]
    if short in UN and args and not kw:
        r = ew(I, lambda x: unfn(short, x), args[:1])
        return out_arg(I, kwargs, wherearg(I, kwargs, r, args), node)
    if short in BIN and len(args) >= 2 and not kw:
        r = I.binop(BIN[short], listarr(I, args[0]), args[1], node)
        return out_arg(I, kwargs, wherearg(I, kwargs, r, args), node)
    if short in CMPF and len(args) == 2 and not kw and kwargs.get('out', NONE) is NONE and 'where' not in kwargs:
        return I.compare(CMPF[short], args[0], args[1], node)
    if name in ('numpy.float64', 'numpy.float32', 'numpy.float16', 'numpy.int64', 'numpy.int32', 'numpy.longdouble'):
        return ew(I, lambda x: cast1(x, name), args[:1])
    return NotImplemented


def listarr(I, g):
    return g


# ------------------------------------------------------------------ casts
def dtype_name(I, g):
    if g is None or g is NONE:
        return None
    if isinstance(g, Ext):
        return canon(g.name)
    if isinstance(g, N):
        if g.op == 'const' and isinstance(g.param, str):
            return {'float': 'builtins.float', 'float64': 'numpy.float64', 'f8': 'numpy.float64', 'd': 'numpy.float64', 'int': 'builtins.int', 'float32': 'numpy.float32',
                    'int64': 'numpy.int64', 'object': 'builtins.object', 'O': 'builtins.object', 'str': 'builtins.str', 'bool': 'builtins.bool', 'f4': 'numpy.float32',
                    'i8': 'numpy.int64', 'int32': 'numpy.int32'}.get(g.param, g.param)
        if g.op == 'ext':
            return g.param
        return g
    return None


def exact32(x):
    if T.isnum(x):
        v = x.param
        d = v.denominator
        return (d & (d - 1)) == 0 and abs(v.numerator) < 2 ** 24
    if x.op == 'list':
        return all(exact32(a) for a in x.args)
    return False


def cast1(x, d):
    if T.DTYPES and d in ('builtins.float', 'numpy.float64', 'numpy.longdouble'):
        return H('double', (x,))
    if d is None or d in ('builtins.float', 'numpy.float64'):
        return _num(x)
    if d in ('numpy.float32',) and exact32(x):
        return x
    if d in ('builtins.int', 'numpy.int64', 'numpy.int32', 'numpy.intp', 'numpy.int_'):
        x = _num(x)
        return x if x.isint else T.fn('trunc', x)
    if isinstance(d, N):
        if d.op == 'attr' and d.param == 'dtype':
            return H('astype', (x, d))
        return H('astype', (x, d))
    return H('astype', (x,), d)


def with_dtype(I, v, dtype):
    d = dtype_name(I, dtype)
    if d is None or d in ('builtins.float', 'numpy.float64') and not T.DTYPES:
        return v
    return T.lift(lambda x: cast1(x, d), [v], ew=True)


# ------------------------------------------------------------------ carriers
def carrier(kind='np', copy=False):
    def f(I, args, kwargs, node):
        s = sig(args, kwargs, 'object', 'dtype')
        ex = {k: v for k, v in s['*'].items() if k not in ('copy', 'order', 'subok', 'ndmin', 'like')}
        if ex:
            return NotImplemented
        if s['*'].get('copy') is TRUE:
            cp = True
        else:
            cp = copy

        def g(l):
            c = cellof(I, l)
            v = with_dtype(I, I.val(l), s['dtype'])
            k = I.kind(l)
            if c is not None:
                if c.kind in ('np', 'np0', 'duck') and c.kind != 'duck' and not cp and s['dtype'] is None:
                    return l
                if c.kind == 'list':
                    return I.arr(v, kind, [c], lazy=False)
                if c.kind in ('np', 'np0'):
                    return I.arr(v, c.kind, [c], view=None)
                # conversion of another container: may share memory
                return I.arr(v, kind, [c], lazy=False, roots=frozenset() if cp else c.roots, view=None if cp else (l, None))
            if k in ('float', 'int', 'scalar', 'str', 'bool', 'scalar?', 'none'):
                return I.arr(v, 'np0', lazy=True)
            return I.arr(v, kind, lazy=True)
        return I.over(s['object'], g)
    return f


TABLE['numpy.asarray'] = carrier()
TABLE['numpy.array'] = carrier(copy=True)
TABLE['numpy.copy'] = carrier(copy=True)
TABLE['dask.array.asarray'] = TABLE['numpy.asarray']
TABLE['numpy.atleast_1d'] = lambda I, args, kwargs, node: I.over(args[0], lambda l: I.arr(T.lift(lambda x: H('atleast1', (x,)), [I.val(l)], ew=False), 'np', cells_of(I, [l])))


# ------------------------------------------------------------------ selection
def where3(I, cond, x, y, kind=None):
    def go(gs):
        c, a, b = gs
        vals = opvals(I, [c, a, b])
        g = I.truth(vals[0], ew=True)
        v = T.ite(g, T.unpack(numg(vals[1])), T.unpack(numg(vals[2])))
        v = minmaxfix(v)
        return build(I, v, gs, kind)
    return split(I, [cond, x, y], go)


def numg(g):
    return g


def minmaxfix(v):
    """decisions that amount to a minimum/maximum"""
    memo = {}

    def rec(v):
        if not isinstance(v, Ite) or not v.atom.ew:
            return v
        if id(v) not in memo:
            hi, lo = rec(v.hi), rec(v.lo)
            m = T.minmax_pattern(v.atom, hi, lo)
            memo[id(v)] = m if m is not None else v if hi is v.hi and lo is v.lo else T.mkite_ordered(v.atom, hi, lo)
        return memo[id(v)]
    return rec(v)


@reg('where', 'xarray.where', 'dask.array.where')
def np_where(I, args, kwargs, node):
    s = sig(args, kwargs, 'condition', 'x', 'y')
    if s['x'] is None:
        def nz(l):
            return T.lift(lambda a: H('nonzero', (boolcanon(a),)), [I.val(l)], ew=False)
        return I.over(s['condition'], nz)
    cells = cells_of(I, [s['condition'], s['x'], s['y']])
    lz = None
    r = where3(I, s['condition'], s['x'], s['y'], kind='np')
    return force_np(I, r, cells)


def force_np(I, r, cells):
    if any(c.kind in ('da', 'ds') for c in cells):
        for l in leaves(r):
            c = cellof(I, l)
            if c is not None:
                I.heap[l.id] = c.with_(kind='np', lazy=False, dims=None, coords=None)
    elif cells and all(c.kind in ('np0', 'npscalar') for c in cells):
        for l in leaves(r):
            c = cellof(I, l)
            if c is not None:
                I.heap[l.id] = c.with_(kind='np0')
    return r


def xr_where(I, args, kwargs, node):
    s = sig(args, kwargs, 'cond', 'x', 'y', 'keep_attrs')
    return where3(I, s['cond'], s['x'], s['y'])


TABLE['xarray.where'] = xr_where
TABLE['dask.array.where'] = xr_where


@reg('select')
def np_select(I, args, kwargs, node):
    s = sig(args, kwargs, 'condlist', 'choicelist', 'default')
    from . import lib
    cs = lib.enumerate_known(I, s['condlist'], 50)
    xs = lib.enumerate_known(I, s['choicelist'], 50)
    if cs is None or xs is None or len(cs) != len(xs):
        return NotImplemented
    r = s['default'] if s['default'] is not None else T.ZERO
    for c, x in zip(reversed(cs), reversed(xs)):
        r = where3(I, c, x, r)
    return force_np(I, r, cells_of(I, list(cs) + list(xs)))


def clip(I, x, lo, hi):
    r = x
    if lo is not None and lo is not NONE:
        r = ew(I, lambda a, b: T.minmax('maximum', a, b), [r, lo])
    if hi is not None and hi is not NONE:
        r = ew(I, lambda a, b: T.minmax('minimum', a, b), [r, hi])
    return r


@reg('clip')
def np_clip(I, args, kwargs, node):
    s = sig(args, kwargs, 'a', 'a_min', 'a_max')
    lo = s['a_min'] if s['a_min'] is not None else s['*'].get('min')
    hi = s['a_max'] if s['a_max'] is not None else s['*'].get('max')
    return clip(I, s['a'], lo, hi)


@reg('minimum', 'dask.array.minimum')
def np_min2(I, args, kwargs, node):
    return ew(I, lambda a, b: T.minmax('minimum', a, b), args[:2])


@reg('maximum', 'dask.array.maximum')
def np_max2(I, args, kwargs, node):
    return ew(I, lambda a, b: T.minmax('maximum', a, b), args[:2])


for _n in ('fmin', 'fmax', 'arctan2', 'hypot', 'copysign', 'nextafter', 'fmod', 'ldexp'):
    TABLE['numpy.' + _n] = (lambda n: lambda I, args, kwargs, node: ew(I, lambda a, b: H(n, (a, b)), args[:2]))(_n)
TABLE['math.atan2'] = TABLE['numpy.arctan2']


@reg('square')
def np_square(I, args, kwargs, node):
    return ew(I, lambda a: T.power(a, const(2)), args[:1])


@reg('reciprocal')
def np_recip(I, args, kwargs, node):
    return ew(I, lambda a: T.div(T.ONE, a), args[:1])


@reg('negative')
def np_neg(I, args, kwargs, node):
    return ew(I, lambda a: T.neg(a), args[:1])


@reg('exp2')
def np_exp2(I, args, kwargs, node):
    return ew(I, lambda a: T.power(const(2), a), args[:1])


@reg('deg2rad')
def np_d2r(I, args, kwargs, node):
    return ew(I, lambda a: T.div(T.mul(a, T.PI), const(180)), args[:1])


@reg('rad2deg')
def np_r2d(I, args, kwargs, node):
    return ew(I, lambda a: T.div(T.mul(a, const(180)), T.PI), args[:1])


@reg('logical_and')
def np_land(I, args, kwargs, node):
    return boolop(I, 'BitAnd', args[0], args[1])


@reg('logical_or')
def np_lor(I, args, kwargs, node):
    return boolop(I, 'BitOr', args[0], args[1])


@reg('logical_xor')
def np_lxor(I, args, kwargs, node):
    return boolop(I, 'BitXor', args[0], args[1])


@reg('logical_not')
def np_lnot(I, args, kwargs, node):
    def go(gs):
        return build(I, T.gnot(I.truth(I.val(gs[0]), ew=bool(cells_of(I, gs)))), gs)
    return split(I, args[:1], go)


@reg('real')
def np_real(I, args, kwargs, node):
    return ew(I, real, args[:1])


def real(x):
    if x.op == 'const' or x.op in ('min', 'max'):
        return x
    if x.op == 'in' and x.kind in ('float', 'int'):
        return x
    return T.linear('real', x, split=False)


def imag(x):
    return T.linear('imag', x, split=False)


@reg('imag')
def np_imag(I, args, kwargs, node):
    return ew(I, imag, args[:1])


# ------------------------------------------------------------------ reductions
LINRED = {'sum', 'mean', 'nansum', 'nanmean'}


def red(name, x, axis=None):
    """axis: None or term"""
    x = boolcanon(x)
    ex = () if axis is None or axis is NONE else (axis,)
    if not ex and name in ('min', 'max'):
        from .libbi import reduce1
        return reduce1(name, x)
    if name in ('sum', 'mean'):
        return T.linear(name, x, None, ex)
    return H(name, (x,) + ex, kind='bool' if name in ('any', 'all') else None, isint=x.isint and name in ('min', 'max', 'sum') or name in ('argmax', 'argmin', 'count'))


def axisterm(I, x, axis=None, dim=None):
    if dim is not None and dim is not NONE:
        from .libext import dimsterm
        t = seqterm(I, dim) if not (isinstance(dim, N) and I.kind(dim) == 'str') else dim
        t = I._packed(t)
        if t.op == 'tuple' and len(t.args) == 1:
            t = t.args[0]
        if isinstance(dim, Ref) and isinstance(I.cell(dim), SetC):
            t = I._packed(I.val(dim))
        if t.op == 'index' and t.args[0].op == 'dims' and T.isnum(t.args[1]):
            return t.args[1]
        return H('dim', (t,)) if t.op != 'const' or isinstance(t.param, str) else t
    if axis is None or axis is NONE:
        return None
    t = I._packed(seqterm(I, axis))
    if t.op == 'tuple' and len(t.args) == 1:
        t = t.args[0]
    if t.op == 'tuple':
        t = H('tuple', sorted(t.args, key=lambda n: n.fp))
    return t


def reduction(name):
    def f(I, args, kwargs, node):
        s = sig(args, kwargs, 'a', 'axis')
        ex = {k: v for k, v in s['*'].items() if not (k in ('dtype', 'out', 'keepdims') and (v is NONE or v is FALSE))}
        if name in ('sum', 'mean') and 'dtype' in ex and not isinstance(ex['dtype'], Ite):
            ex.pop('dtype')

        def g(gs):
            l = gs[0]
            ax = axisterm(I, None, s['axis'])
            exl = extras(I, ex)
            if name in ('any', 'all') and ax is None:
                v = I._packed(I.val(l))
                r = allany(I, v, name == 'any')
            elif exl:
                r = T.lift(lambda x: H(name, (x,) + ((ax,) if ax is not None else ()) + tuple(exl)), [I.val(l)], ew=False)
            else:
                r = T.lift(lambda x: red(name, x, ax), [I.val(l)], ew=False)
            c = cellof(I, l)
            if c is not None and (ax is not None or c.kind in ('da', 'ds')):
                return I.arr(r, c.kind if c.kind != 'list' else 'np', [c], dims=None)
            return r
        return split(I, [s['a']], g)
    return f


for _n in 'sum mean min max any all prod std var median nansum nanmean nanmin nanmax argmax argmin cumsum cumprod ptp count_nonzero nanstd nanvar average'.split():
    TABLE['numpy.' + _n] = reduction(_n)
TABLE['numpy.average'] = lambda I, args, kwargs, node: NotImplemented


# ------------------------------------------------------------------ shape operations
def lin(name, split_=True):
    return lambda x, *ex: T.linear(name, x, None, ex)


def shapeop(I, name, src, ex, lazy=None, linear=True, kind=None):
    def g(gs):
        l = gs[0]
        c = cellof(I, l)

        def mk(x):
            return T.linear(name, x, None, tuple(ex)) if linear and not x.isint else H(name, (x,) + tuple(ex), isint=x.isint)
        v = T.lift(mk, [I.val(l)], ew=False)
        k = kind or ('np' if c is None or c.kind in ('np', 'np0', 'list', 'index') else c.kind)
        return I.arr(v, k, [c] if c else [], roots=c.roots if c else frozenset())
    return split(I, [src], g)


@reg('swapaxes', 'moveaxis_')
def np_swapaxes(I, args, kwargs, node):
    s = sig(args, kwargs, 'a', 'axis1', 'axis2')
    return swapaxes(I, s['a'], s['axis1'], s['axis2'])


def swapaxes(I, a, x, y):
    def g(gs):
        l, x, y = gs
        x, y = I._packed(I.val(x)), I._packed(I.val(y))
        if x.fp > y.fp:
            x, y = y, x
        c = cellof(I, l)

        def mk(v):
            if x.fp == y.fp:
                return v
            if v.op == 'swapaxes' and v.args[1].fp == x.fp and v.args[2].fp == y.fp:
                return v.args[0]
            return H('swapaxes', (v, x, y))
        r = T.lift(mk, [I.val(l)], ew=False)
        k = c.kind if c is not None and c.kind in ('da', 'duck') else 'np'
        if k == 'da':
            k = 'np'
        return I.arr(r, k, [c] if c else [], roots=c.roots if c else frozenset(), lazy=(c.lazy and c.kind == 'duck') if c else True)
    return split(I, [a, x, y], g)


@reg('moveaxis')
def np_moveaxis(I, args, kwargs, node):
    s = sig(args, kwargs, 'a', 'source', 'destination')
    return shapeop(I, 'moveaxis', s['a'], [pk(I, s['source']), pk(I, s['destination'])])


def npT(I, a):
    g = I.val(a)
    ts = [transposed(x) if isinstance(x, N) else None for x in T.leaves(g)]
    if not all(t is not None for t in ts):
        return shapeop(I, 'T', a, [])
    v = T.lift(transposed, [g], ew=False)
    return build(I, v, [a], kind='np')


@reg('transpose')
def np_transpose(I, args, kwargs, node):
    s = sig(args, kwargs, 'a', 'axes')
    if isnone(s['axes']):
        return npT(I, s['a'])
    return shapeop(I, 'transpose', s['a'], [I._packed(seqterm(I, s['axes']))])


@reg('ravel')
def np_ravel(I, args, kwargs, node):
    s = sig(args, kwargs, 'a', 'order')
    return reordered(I, ravel(I, s['a']), s['order'])


def reordered(I, r, o):
    """elements taken in another order than C's"""
    if o is None or cstr(o) == 'C':
        return r
    return split(I, [r], lambda gs: I.arr(T.lift(lambda x: H('reordered', (x, pk(I, o))), [I.val(gs[0])], ew=False), 'np', [I.cell(gs[0])], roots=I.cell(gs[0]).roots))


def ravel(I, a):
    def g(gs):
        l = gs[0]
        c = cellof(I, l)
        r = T.lift(lambda x: H('ravel', (x,)) if x.op != 'ravel' else x, [I.val(l)], ew=False)
        return I.arr(r, 'np', [c] if c else [], roots=c.roots if c else frozenset(), lazy=False if c is not None and c.kind == 'da' else None)
    return split(I, [a], g)


@reg('reshape')
def np_reshape(I, args, kwargs, node):
    s = sig(args, kwargs, 'a', 'shape')
    if s['shape'] is None:
        s['shape'] = s['*'].get('newshape')
    return reordered(I, reshape(I, s['a'], s['shape']), s['*'].get('order'))


def _dimprod(ts):
    r = ts[0]
    for t in ts[1:]:
        r = T.mul(r, t)
    return r


def reshape1(I, x, shp):
    """reshape with canonical flattening"""
    if shp.op == 'tuple' and len(shp.args) == 1:
        shp = shp.args[0]
    if shp.op in ('dims_',):
        pass
    if x.op == 'reshape' or x.op == 'ravel':
        return reshape1(I, x.args[0], shp) if x.op == 'ravel' else H('reshape', (x.args[0], shp))
    if T.isnum(shp) and shp.param == -1:
        return H('ravel', (x,))
    # product of all dimensions of x: flatten (2-d arrays)
    if shp.op == 'mul' and all(a.op in ('len', 'index') for a in shp.args):
        want = {ops.index(ops.shape(x), const(0)).fp, ops.index(ops.shape(x), const(1)).fp}
        if {a.fp for a in shp.args} == want:
            return H('ravel', (x,))
    if shp.op == 'size' and shp.args[0].fp == x.fp:
        return H('ravel', (x,))
    if shp.op == 'shape' and shp.args[0].fp == x.fp:
        return x
    return H('reshape', (x, shp))


def reshape(I, a, shp):
    def g(gs):
        l, sh = gs
        c = cellof(I, l)
        sh = I._packed(seqterm(I, sh))
        r = T.lift(lambda x: reshape1(I, x, sh), [I.val(l)], ew=False)
        return I.arr(r, 'np' if c is None or c.kind != 'duck' else 'duck', [c] if c else [], roots=c.roots if c else frozenset())
    return split(I, [a, shp], g)


@reg('expand_dims')
def np_expand(I, args, kwargs, node):
    s = sig(args, kwargs, 'a', 'axis')
    ax = T.lift(lambda t: t.args[0] if t.op == 'tuple' and len(t.args) == 1 else t, [I._packed(seqterm(I, s['axis']))], ew=False)
    return shapeop(I, 'expand_dims', s['a'], [I._packed(ax)], kind='np')


@reg('squeeze')
def np_squeeze(I, args, kwargs, node):
    s = sig(args, kwargs, 'a', 'axis')
    return shapeop(I, 'squeeze', s['a'], [pk(I, s['axis'])] if not isnone(s['axis']) else [])


@reg('flip')
def np_flip(I, args, kwargs, node):
    s = sig(args, kwargs, 'm', 'axis')
    ax = s['axis']

    def g(gs):
        l = gs[0]
        c = cellof(I, l)
        if isnone(ax) or cint(ax) == 0:
            v = T.lift(ops.flip, [I.val(l)], ew=False)
        else:
            v = T.lift(lambda x, a: H('flip', (x, a)), [I.val(l), I.val(ax)], ew=False)
        return I.arr(v, c.kind if c else 'np', [c] if c else [], roots=c.roots if c else frozenset())
    return split(I, [s['m']], g)


TABLE['numpy.flipud'] = np_flip


@reg('roll')
def np_roll(I, args, kwargs, node):
    s = sig(args, kwargs, 'a', 'shift', 'axis')
    ex = [pk(I, s['shift'])] + ([pk(I, s['axis'])] if not isnone(s['axis']) and cint(s['axis']) != 0 else [])
    return shapeop(I, 'roll', s['a'], ex)


@reg('diff')
def np_diff(I, args, kwargs, node):
    s = sig(args, kwargs, 'a', 'n', 'axis')
    n = cint(s['n']) if s['n'] is not None else 1
    ax = s['axis'] if not isnone(s['axis']) else const(-1)

    def g(gs):
        l = gs[0]
        c = cellof(I, l)

        def mk(x):
            return T.linear('diff', x, None, (pk(I, ax),)) if n == 1 else H('diff', (x, pk(I, s['n']), pk(I, ax)))
        v = T.lift(mk, [I.val(l)], ew=False)
        return I.arr(v, 'np', [c] if c else [], lazy=False if c is not None and c.kind == 'da' else None)
    return split(I, [s['a']], g)


@reg('gradient')
def np_gradient(I, args, kwargs, node):
    s = sig(args, kwargs, 'f')
    if s['*args'] or set(s['*']) - {'axis', 'edge_order'}:
        return NotImplemented
    ax = s['*'].get('axis')
    eo = s['*'].get('edge_order')
    ex = [H('kw', (pk(I, eo),), 'edge_order')] if eo is not None and cint(eo) != 1 else []

    def g(gs):
        l = gs[0]
        c = cellof(I, l)
        if isnone(ax):
            v = [T.lift(lambda x: H('gradient', (x, const(i)) + tuple(ex)), [I.val(l)], ew=False) for i in range(2)]
            return Tup([I.arr(x, 'np', [c] if c else [], lazy=False if c is not None and c.kind == 'da' else None) for x in v])
        v = T.lift(lambda x, a: H('gradient', (x, a) + tuple(ex)), [I.val(l), I._packed(seqterm(I, ax))], ew=False)
        return I.arr(v, 'np', [c] if c else [], lazy=False if c is not None and c.kind == 'da' else None)
    return split(I, [s['f']], g)


@reg('pad')
def np_pad(I, args, kwargs, node):
    s = sig(args, kwargs, 'array', 'pad_width', 'mode')
    ex = [I._packed(seqdeep(I, s['pad_width'])), pk(I, s['mode']) if s['mode'] is not None else const('constant')] + extras(I, s['*'])
    r = shapeop(I, 'pad', s['array'], ex, kind='np', linear=False)
    for l in leaves(r):
        c = cellof(I, l)
        if c:
            I.heap[l.id] = c.with_(roots=frozenset())
    return r


def seqdeep(I, g):
    from .lib import enumerate_known

    def f(l):
        items = enumerate_known(I, l, 100) if isinstance(l, (Ref, Tup)) else None
        if items is not None and not any(isinstance(x, tuple) for x in items):
            return T.lift(lambda *a: H('tuple', a), [I._packed(seqdeep(I, x)) for x in items], ew=False)
        return I._val1(l)
    return T.gmap(f, g)


@reg('outer')
def np_outer(I, args, kwargs, node):
    def mk(a, b):
        (c, a), (d, b) = factor(a), factor(b)
        return T.mul(T.const(c * d), H('outer', (a, b)))
    return build(I, T.lift(mk, [I.val(args[0]), I.val(args[1])], ew=False), args[:2], kind='np')


def factor(x):
    """x = c * y with a rational constant c"""
    ex = T.expand(x)
    if not ex:
        return 1, x
    c = sorted(ex, key=lambda cm: cm[1].fp)[0][0]
    return (1, x) if c == 1 else (c, T.div(x, T.const(c)))


def transposed(x):
    """the transpose of an element-wise term over outer products, or None"""
    m = {}
    if x.op in ('list', 'colstack') and x.args and not any(a.op in ('list', 'tuple', 'axis', 'comp', 'compif', 'cond', 'star') or T.isconst(a) for a in x.args):
        return H('colstack' if x.op == 'list' else 'list', x.args)

    def go(n):
        if n.op == 'outer':
            m[n.fp] = H('outer', (n.args[1], n.args[0]))
            return True
        if n.op in ops.ELEMWISE and n.args and not ops.scalarish(n):
            return all(go(a) for a in n.args)
        return ops.scalarish(n)
    return ops.subst(x, m) if go(x) and m else None


@reg('meshgrid')
def np_mesh(I, args, kwargs, node):
    if len(args) != 2:
        return NotImplemented
    ix = kwargs.get('indexing')
    ij = ix is not None and cstr(ix) == 'ij'
    if ix is not None and cstr(ix) not in ('ij', 'xy'):
        return NotImplemented
    x, y = I.val(args[0]), I.val(args[1])
    cs = cells_of(I, args)

    def mesh(k):
        return T.lift(lambda a, b: H('mesh', (b, a), 1 - k) if ij else H('mesh', (a, b), k), [x, y], ew=False)
    return Tup([I.arr(mesh(0), 'np', cs, lazy=False), I.arr(mesh(1), 'np', cs, lazy=False)])


def filled(name):
    def f(I, args, kwargs, node):
        s = sig(args, kwargs, 'shape', 'fill_value' if name == 'full' else 'dtype', 'dtype2')
        shp = I._packed(seqterm(I, s['shape']))
        if shp.op == 'tuple' and len(shp.args) == 1:
            shp = shp.args[0]
        if name == 'full':
            v = pk(I, s['fill_value'])
            if v.fp == 0:
                t = H('zeros', (shp,))
            else:
                t = H('full', (shp, v))
        elif name == 'ones':
            t = H('full', (shp, T.ONE))
        else:
            t = H('zeros' if name == 'zeros' else 'empty', (shp,))
        return I.arr(filled_type(I, t, s['dtype2'] if name == 'full' else s['dtype']), 'np')
    return f


for _n in ('zeros', 'ones', 'full', 'empty'):
    TABLE['numpy.' + _n] = filled(_n)


def like(name):
    def f(I, args, kwargs, node):
        s = sig(args, kwargs, 'a', 'fill_value') if name == 'full' else sig(args, kwargs, 'a')
        v = {'zeros': T.ZERO, 'ones': T.ONE, 'empty': H('uninit')}.get(name)

        def g(gs):
            l = gs[0]
            c = cellof(I, l)
            fv = v if v is not None else pk(I, s['fill_value'])
            dt = s['*'].get('dtype')
            r = filled_type(I, T.lift(lambda x: H('full_like', (likeof(x), fv)), [I.val(l)], ew=False), dt)
            return I.arr(r, 'np' if c is None or c.kind in ('np', 'np0', 'list') else c.kind, [c] if c else [])
        return split(I, [s['a']], g)
    return f


def likeof(x):
    """representative with the same shape"""
    while x.op in ('flip', 'full_like', 'neg', 'roll', 'sqrt', 'exp', 'log', 'abs') and not T.DTYPES:
        x = x.args[0]
    return x


def filled_type(I, r, dtype):
    """a freshly made array with the element type that was asked for"""
    d = dtype_name(I, dtype)
    if T.DTYPES and d is not None:
        if isinstance(d, N):
            return T.lift(lambda x: H('astype', (x, d)), [r], ew=False)
        return T.lift(lambda x: H('double' if d in ('builtins.float', 'numpy.float64') else 'integer' if str(d).rsplit('.', 1)[-1] in ('int', 'int64', 'int32', 'intp', 'int_')
                                  else 'astype', (x,), d), [r], ew=False)
    if d in ('numpy.float32', 'numpy.float16', 'float16'):
        return T.lift(lambda x: H('astype', (x,), d), [r], ew=False)
    return r


for _n in ('zeros', 'ones', 'full', 'empty'):
    TABLE['numpy.' + _n + '_like'] = like(_n)
    TABLE['xarray.' + _n + '_like'] = like(_n)


@reg('arange')
def np_arange(I, args, kwargs, node):
    a = [pk(I, x) for x in args]
    kw = {k: v for k, v in kwargs.items() if k != 'dtype'}
    if kw:
        return NotImplemented
    if len(a) == 1:
        n, lo, st = a[0], T.ZERO, T.ONE
    elif len(a) >= 2:
        lo, st = a[0], a[2] if len(a) > 2 else T.ONE
        n = T.sub(a[1], a[0])
    if T.isnum(st) and st.param == 1 and n.isint:
        if T.isnum(n) and T.isnum(lo) and n.param <= 400:
            t = H('list', [const(int(lo.param) + i) for i in range(int(n.param))])
        else:
            t = H('arange1', (n,), isint=True)
            if lo.fp:
                t = T.add(t, lo)
        return I.arr(t, 'np')
    return I.arr(H('arange', a), 'np')


@reg('linspace')
def np_linspace(I, args, kwargs, node):
    return I.arr(H('linspace', [pk(I, x) for x in args] + extras(I, kwargs)), 'np')


@reg('nonzero')
def np_nonzero(I, args, kwargs, node):
    return I.over(args[0], lambda l: T.lift(lambda a: H('nonzero', (boolcanon(a),)), [I.val(l)], ew=False))


@reg('flatnonzero')
def np_flatnonzero(I, args, kwargs, node):
    return I.over(args[0], lambda l: I.arr(T.lift(lambda a: H('nonzero0', (boolcanon(a),)), [I.val(l)], ew=False), 'np', cells_of(I, [l])))


@reg('argwhere')
def np_argwhere(I, args, kwargs, node):
    return I.over(args[0], lambda l: I.arr(T.lift(lambda a: H('argwhere', (boolcanon(a),)), [I.val(l)], ew=False), 'np', cells_of(I, [l])))


def stack(name):
    def f(I, args, kwargs, node):
        from . import lib
        s = sig(args, kwargs, 'tup', 'axis')

        def g(l):
            items = lib.enumerate_known(I, l, 400)
            ax = s['axis']
            if items is None or any(isinstance(x, tuple) for x in items):
                return I.arr(T.lift(lambda a: H(name, (a,) + ((pk(I, ax),) if ax is not None else ())), [I.val(l)], ew=False), 'np')
            vs = [pk(I, x) for x in items]
            cs = cells_of(I, items)
            nm = name
            if name == 'stack' and cint(ax) in (1, -1):
                nm = 'colstack'
            if name == 'column_stack':
                nm = 'colstack'
            if name == 'stack' and (ax is None or cint(ax) == 0):
                nm = 'list'
            if name == 'vstack':
                nm = 'list'
            ex = (H('axis', (pk(I, ax),)),) if ax is not None and nm not in ('colstack', 'list') and not (cint(ax) == 0) else ()
            return I.arr(H(nm, tuple(vs) + ex), 'np', cs)
        return I.over(s['tup'], g)
    return f


for _n in ('vstack', 'hstack', 'stack', 'concatenate', 'column_stack', 'dstack'):
    TABLE['numpy.' + _n] = stack(_n)


@reg('insert')
def np_insert(I, args, kwargs, node):
    return I.arr(H('insert', [pk(I, x) for x in args] + extras(I, kwargs)), 'np', cells_of(I, args))


@reg('append')
def np_append(I, args, kwargs, node):
    return I.arr(H('concatenate', [pk(I, x) for x in args[:2]] + [pk(I, x) for x in args[2:]] + extras(I, kwargs)), 'np', cells_of(I, args))


@reg('shape')
def np_shape(I, args, kwargs, node):
    def f(l):
        k = I.kind(l)
        if k in ('float', 'int', 'bool', 'str', 'scalar'):
            return Tup(())
        return T.lift(ops.shape, [I.val(l)], ew=False)
    return T.gmap(f, args[0])


@reg('ndim')
def np_ndim(I, args, kwargs, node):
    def f(l):
        if I.kind(l) in ('float', 'int', 'bool', 'str', 'scalar'):
            return T.ZERO
        return T.lift(ops.ndim, [I.val(l)], ew=False)
    return T.gmap(f, args[0])


@reg('size')
def np_size(I, args, kwargs, node):
    return T.lift(lambda x: H('size', (x,), isint=True, kind='int'), [I.val(args[0])], ew=False)


@reg('isscalar')
def np_isscalar(I, args, kwargs, node):
    def f(l):
        k = I.kind(l)
        if k in ('float', 'int', 'bool', 'str', 'scalar', 'npscalar'):
            return TRUE
        if k in ('da', 'ds', 'np', 'np0', 'list', 'tuple', 'dict', 'set', 'none', 'function'):
            return FALSE
        return I.nbool(H('isscalar', (pk(I, l),), kind='bool'))
    return T.gmap(f, args[0])


@reg('allclose')
def np_allclose(I, args, kwargs, node):
    s = sig(args, kwargs, 'a', 'b')
    return T.lift(lambda a, b: H('allclose', (a, b) + tuple(extras(I, s['*'])), kind='bool'), [I.val(s['a']), I.val(s['b'])], ew=False)


@reg('array_equal')
def np_aeq(I, args, kwargs, node):
    v = I.compare('Eq', args[0], args[1], node)
    return T.lift(lambda a, b: H('array_equal', tuple(sorted((a, b), key=lambda n: n.fp)), kind='bool'), [I.val(args[0]), I.val(args[1])], ew=False)


@reg('result_type', 'promote_types')
def np_result_type(I, args, kwargs, node):
    def one(g):
        d = dtype_name(I, g)
        if isinstance(d, str):
            return H('dtypename', (), d)
        if cellof(I, g) is not None and I.kind(g) not in ('list', 'dict', 'tuple'):
            return H('attr', (ops.dtypesrc(I._packed(I.val(g))),), 'dtype')
        return pk(I, g)
    if kwargs or any(isinstance(a, Ite) for a in args):
        return NotImplemented
    return H('result_type', tuple(sorted({t.fp: t for t in map(one, args)}.values(), key=lambda n: n.fp)))


@reg('issubdtype')
def np_issubdtype(I, args, kwargs, node):
    return T.lift(lambda a, b: H('issubdtype', (a, b), kind='bool'), [I.val(args[0]), I.val(args[1])], ew=False)


@reg('isin')
def np_isin(I, args, kwargs, node):
    return build(I, T.lift(lambda a, b: H('isin', (a, b), kind='bool'), [I.val(args[0]), I._packed(seqterm(I, args[1]))], ew=False), args[:1], kind='np')


@reg('fft.fft')
def np_fft(I, args, kwargs, node):
    return fft('fft', I, args, kwargs)


@reg('fft.ifft')
def np_ifft(I, args, kwargs, node):
    return fft('ifft', I, args, kwargs)


def fft(name, I, args, kwargs):
    s = sig(args, kwargs, 'a', 'n', 'axis', 'norm')
    ax = pk(I, s['axis']) if not isnone(s['axis']) else const(-1)
    ex = extras(I, {k: s[k] for k in ('n', 'norm') if s[k] is not None})

    def g(gs):
        l = gs[0]
        c = cellof(I, l)
        return I.arr(T.lift(lambda x: H(name, (x, ax) + tuple(ex)), [I.val(l)], ew=False), 'np', [c] if c else [], lazy=False)
    return split(I, [s['a']], g)


for _n in ('rfft', 'irfft', 'fftfreq', 'rfftfreq', 'fftn', 'ifftn', 'fftshift', 'ifftshift'):
    TABLE['numpy.fft.' + _n] = (lambda n: lambda I, args, kwargs, node: I.arr(H(n, [pk(I, x) for x in args] + extras(I, kwargs)), 'np', cells_of(I, args)))(_n)


@reg('dot', 'matmul')
def np_dot(I, args, kwargs, node):
    return build(I, T.lift(lambda a, b: H('matmul', (a, b)), [I.val(args[0]), I.val(args[1])], ew=False), args[:2])


@reg('cross', 'einsum', 'interp', 'trapezoid', 'trapz', 'convolve', 'unique', 'sort', 'argsort', 'searchsorted', 'tile', 'repeat', 'broadcast_to', 'take',
     'percentile', 'quantile', 'histogram', 'digitize', 'rot90', 'rollaxis', 'ix_', 'isclose', 'nan_to_num', 'round', 'around', 'take_along_axis', 'broadcast_arrays', 'split', 'array_split', 'fliplr',
     'unwrap', 'polyval', 'full_', 'where_')
def np_other(I, args, kwargs, node):
    fn = node.func.attr if hasattr(getattr(node, 'func', None), 'attr') else 'np'
    return I.arr(H('np.' + fn, [I._packed(seqterm(I, x)) for x in args] + extras(I, kwargs)), 'np', cells_of(I, args))


# in-place writers
def writer(pos):
    def f(I, args, kwargs, node):
        a = args[pos] if len(args) > pos else kwargs.get('dst')
        if a is None:
            return NotImplemented
        rest = [pk(I, x) for x in args]

        def g(l):
            c = cellof(I, l)
            if c is not None:
                I.mutate_arr(l, T.H('written', rest), node, 'in-place numpy function')
        I.over(a, g)
        return NONE
    return f


for _n in ('copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis', 'random.shuffle'):
    TABLE['numpy.' + _n] = writer(0)


def nd(name):
    def f(I, args, kwargs, node):
        I.ev('nondet', node, what=name)
        return I.arr(H('nondet', [pk(I, x) for x in args], name), 'np')
    return f


for _n in ('rand', 'randn', 'random', 'normal', 'uniform', 'choice', 'permutation', 'default_rng', 'randint', 'standard_normal'):
    TABLE['numpy.random.' + _n] = nd('numpy.random.' + _n)


def _sph(I, args, kwargs, node, names, perm):
    s = sig(args, kwargs, *names)
    if s['*'] and set(s['*']) - {'diff_n'} or any(s[n] is None for n in names):
        return NotImplemented
    gs = [s[n] for n in perm]
    return ew(I, lambda a, b, c, d: H('sph_harm_y', (a, b, c, d)), gs)


TABLE['scipy.special.sph_harm_y'] = lambda I, args, kwargs, node: _sph(I, args, kwargs, node, ('n', 'm', 'theta', 'phi'), ('n', 'm', 'theta', 'phi'))
# sph_harm(m, n, theta=azimuth, phi=polar) == sph_harm_y(n, m, polar, azimuth)
TABLE['scipy.special.sph_harm'] = lambda I, args, kwargs, node: _sph(I, args, kwargs, node, ('m', 'n', 'theta', 'phi'), ('n', 'm', 'phi', 'theta'))


@reg('scipy.spatial.SphericalVoronoi')
def sp_voronoi(I, args, kwargs, node):
    s = sig(args, kwargs, 'points', 'radius', 'center', 'threshold')
    r = pk(I, s['radius']) if s['radius'] is not None else T.ONE
    c = pk(I, s['center']) if not isnone(s['center']) else NONE
    if c.op == 'list' and all(a.fp == 0 for a in c.args):
        c = NONE
    ex = [pk(I, s['threshold'])] if s['threshold'] is not None else []
    return H('SphericalVoronoi', [pk(I, s['points']), r, c] + ex)
