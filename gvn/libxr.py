"""Models of xarray, pandas, metpy, eofs, xskillscore, dask entry points."""
from .values import *  # noqa
from . import terms as T
from . import ops
from .terms import H, const
from .libext import (sig, pk, cells_of, cellof, build, ew, split, cstr, cint, isnone, seqterm, pure_call, extras, dimsterm, cbool)

TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


# external operations that are pure and whose meaning is uninterpreted:
# canonical name -> parameter names (positional arguments become keywords)
PURE = {
    'xarray.date_range': ('start', 'end', 'periods', 'freq', 'tz', 'normalize', 'name', 'inclusive', 'calendar', 'use_cftime'),
    'xarray.cftime_range': ('start', 'end', 'periods', 'freq', 'normalize', 'name', 'inclusive', 'calendar'),
    'pandas.date_range': ('start', 'end', 'periods', 'freq'),
    'xarray.infer_freq': ('index',),
    'xarray.coding.cftime_offsets.to_offset': ('freq',),
    'pandas.tseries.frequencies.to_offset': ('freq',),
    'xarray.core.common.contains_cftime_datetimes': ('var',),
    'xarray.core.common._contains_datetime_like_objects': ('var',),
    'xarray.core.utils.is_duck_array': ('value',),
    'xarray.concat': ('objs', 'dim', 'data_vars', 'coords'),
    'metpy.interpolate.interpolate_1d': None,
    'metpy.interpolate.log_interpolate_1d': None,
    'xskillscore.pearson_r': ('a', 'b', 'dim', 'weights', 'skipna', 'keep_attrs'),
    'xskillscore.core.np_deterministic._pearson_r': ('a', 'b', 'weights', 'axis', 'skipna'),
    'xskillscore.core.deterministic.pearson_r': ('a', 'b', 'dim', 'weights', 'skipna', 'keep_attrs'),
    'eofs.xarray.Eof': ('array', 'weights', 'center', 'ddof'),
    'eofs.standard.Eof': ('dataset', 'weights', 'center', 'ddof'),
    'cf_xarray.accessor': (),
}
# calls a caller would expect to raise for bad user data inside try
RES = {'xarray.date_range': 'index', 'xarray.cftime_range': 'index', 'pandas.date_range': 'index', 'xskillscore.pearson_r': 'da', 'xskillscore.core.np_deterministic._pearson_r': 'np',
       'xskillscore.core.deterministic.pearson_r': 'da'}
DEFAULTS = {
    'eofs.xarray.Eof': {'weights': NONE, 'center': TRUE, 'ddof': T.ONE},
    'xskillscore.pearson_r': {'dim': NONE, 'weights': NONE, 'skipna': FALSE, 'keep_attrs': FALSE},
    'xskillscore.core.np_deterministic._pearson_r': {},
    'xarray.date_range': {'start': NONE, 'end': NONE, 'periods': NONE, 'freq': NONE, 'tz': NONE, 'name': NONE, 'normalize': FALSE},
}


def generic(I, name, args, kwargs, node):
    if name in PURE and PURE[name] is not None:
        return pure_kw(I, name, PURE[name], args, kwargs, node)
    return NotImplemented


def pure_kw(I, name, names, args, kwargs, node):
    s = sig(args, kwargs, *names)
    if s['*args']:
        return NotImplemented
    al = []
    df = DEFAULTS.get(name, {})
    for n in list(names) + sorted(s['*']):
        v = s.get(n) if n in names else s['*'][n]
        if v is None:
            continue
        t = I._packed(I.full(v)) if cells_of(I, [v]) else I._packed(seqterm(I, v))
        if n in df and df[n].fp == t.fp:
            continue
        al.append(H('kw', (t,), n))
    al.sort(key=lambda n: n.param)
    cs = cells_of(I, list(args) + list(kwargs.values()))
    ak = RES.get(name)
    if name.endswith('is_duck_array') or name.endswith('contains_cftime_datetimes'):
        r = H('call', al, name, kind='bool')
    else:
        r = H('call', al, name)
    if I.trydepth:
        I.implicit_fail(r, '?', node)
    if name == 'xarray.concat':
        return I.arr(r, 'da' if not any(c.kind == 'ds' for c in concat_cells(I, s)) else 'ds', cs, attrsrc=H('attrs', (r,), 'concat'))
    if name.startswith('xskillscore') and ak == 'da':
        # apply_ufunc(keep_attrs=...): those of the operands, or none
        k = s.get('keep_attrs')
        k = FALSE if k is None else I._packed(I.val(k))
        return I.arr(r, ak, cs, attrsrc=H('attrs', [k] + [x for x in cs and [I.attrs_term(c) for c in cs if c.kind in ('da', 'ds')]], 'ufunc'))
    if ak:
        return I.arr(r, ak, cs, lazy=None if ak != 'np' else None)
    if name == 'xarray.infer_freq':
        # None for an irregular index
        return T.mkite(T.atom(H('isnone', (r,), kind='bool'), False), NONE, r)
    return r


def concat_cells(I, s):
    from . import lib
    g = s.get('objs')
    items = lib.enumerate_known(I, g, 100) if not isinstance(g, Ite) else None
    if items is None:
        out = []
        c = I.cell(g) if isinstance(g, Ref) else None
        if isinstance(c, ListC):
            for sg in c.segs:
                xs = [sg] if sg[0] == 'i' else sg[2]
                for x in xs:
                    if x[0] == 'i':
                        out += cells_of(I, [x[1]])
        return out
    return cells_of(I, [x[0] if isinstance(x, tuple) else x for x in items])


@reg('xarray.DataArray')
def x_dataarray(I, args, kwargs, node):
    s = sig(args, kwargs, 'data', 'coords', 'dims', 'name', 'attrs', 'indexes')
    data = s['data'] if s['data'] is not None else T.NAN

    def go(gs):
        l = gs[0]
        c = cellof(I, l)
        isda = c is not None and c.kind == 'da'
        dims, coords, name = s['dims'], s['coords'], s['name']
        kw = {}
        v = I.val(l)
        if isda:
            kw['dims'] = dimsterm(I, dims) if not isnone(dims) else c.dims
            kw['coords'] = coordsval(I, coords) if not isnone(coords) else c.coords
            if isnone(coords) and not isnone(dims):
                kw['coords'] = c.coords
        else:
            kw['dims'] = dimsterm(I, dims) if not isnone(dims) else (T.gmap(lambda x: H('autodims', (x,), kind='tuple'), T.lift(lambda x: x, [v], ew=False)))
            kw['coords'] = coordsval(I, coords) if not isnone(coords) else NONE
        kw['dims'], kw['coords'] = selfdims(I, v, kw['dims'], kw['coords'])
        if not isnone(s['attrs']):
            r = I.new(DictC(None, ()))
            from . import lib
            I.over(s['attrs'], lambda a: lib.dict_update(I, r, a, node))
            kw['attrs'] = r
        kw['attrsrc'] = (I.attrs_term(c) if isda else H('attrs', (), 'none'))
        if not isnone(name):
            kw['name'] = name
        elif isda:
            kw['name'] = c.name if c.name is not None else None
        elif c is not None and c.kind in ('np', 'dask', 'npscalar', 'list'):
            kw['name'] = NONE
        srcs = [c] if c is not None else []
        return I.arr(v, 'da', srcs, roots=c.roots if c is not None else frozenset(), view=(l, None) if c is not None else None, lazy=c.lazy if c is not None else True, **kw)
    return split(I, [data], go)


def selfdims(I, v, dims, coords):
    """dims/coords equal to those the value already carries -> None"""
    if isinstance(v, Ite):
        return dims, coords
    src = ops.coordsrc(v)
    if len(src) != 1:
        return dims, coords
    s = next(iter(src.values()))

    def same(t, op):
        return isinstance(t, N) and t.op == op and t.args[0].fp == s.fp
    if (dims is None or same(dims, 'dims')) and coords is not None and not isinstance(coords, Ite):
        ct = I._packed(I.val(coords))
        if same(ct, 'coords'):
            return None, None
    if dims is not None and same(dims, 'dims') and coords is None:
        return None, None
    return dims, coords


def coordsval(I, coords):
    """coords argument: dict reference copied, other terms kept"""
    from . import lib

    def f(l):
        c = I.cell(l) if isinstance(l, Ref) else None
        if isinstance(c, DictC):
            if c.base is not None and not c.entries:
                return c.base
            return I.new(DictC(c.base, [e if e[0] == 'each' else (e[0], coordentry(I, e[1]), e[2]) for e in c.entries]))
        items = lib.enumerate_known(I, l, 20) if isinstance(l, (Ref, Tup)) else None
        if items is not None and all(isinstance(x, Tup) and len(x.items) == 2 for x in items):
            r = I.new(DictC(None, ()))
            for x in items:
                lib.dict_set(I, r, x.items[0], x.items[1], None)
            return r
        return l
    return T.gmap(f, coords)


def coordentry(I, g):
    """(dims, data) tuples normalised"""
    if isinstance(g, Tup) and len(g.items) in (2, 3):
        return Tup((dimsterm(I, g.items[0]),) + tuple(g.items[1:]))
    return g


@reg('xarray.Dataset')
def x_dataset(I, args, kwargs, node):
    s = sig(args, kwargs, 'data_vars', 'coords', 'attrs')
    al = [H('kw', (pk(I, s[k]),), k) for k in ('data_vars', 'coords') if not isnone(s[k])]
    kw = {}
    if not isnone(s['attrs']):
        kw['attrs'] = s['attrs']
    return I.arr(H('Dataset', al), 'ds', cells_of(I, list(args)), **kw)


@reg('xarray.apply_ufunc')
def x_apply(I, args, kwargs, node):
    f = args[0]
    ig = {'dask', 'output_dtypes', 'keep_attrs', 'vectorize_'}
    ex = {k: v for k, v in kwargs.items() if k not in ig and v is not NONE}
    fk = ex.pop('kwargs', None)
    if ex or (fk is not None):
        return NotImplemented
    das = [c for c in cells_of(I, args[1:]) if c.kind in ('da', 'ds')]
    r = I.call(f, args[1:], {}, node)
    dk = kwargs.get('dask')
    lazy = dk is not None and cstr(dk) in ('parallelized', 'allowed')
    if das:
        for l in leaves(r):
            c = cellof(I, l)
            if c is not None:
                I.heap[l.id] = c.with_(kind='ds' if any(x.kind == 'ds' for x in das) else 'da', lazy=c.lazy and (lazy or not any(x.lazy for x in das) or True) and (lazy or dk is None and False or lazy))
    return r


@reg('xarray.map_blocks')
def x_map_blocks(I, args, kwargs, node):
    s = sig(args, kwargs, 'func', 'obj', 'args', 'kwargs', 'template')
    from . import lib
    a = [s['obj']]
    if s['args'] is not None:
        items = lib.enumerate_known(I, s['args'], 50) if not isinstance(s['args'], Ite) else None
        if items is None:
            return NotImplemented
        a += items
    kw = {}
    if not isnone(s['kwargs']):
        kn = lib.dict_known(I, s['kwargs'])
        if kn is None:
            return NotImplemented
        kw = dict(kn)
    r = I.call(s['func'], a, kw, node)
    src = cells_of(I, [s['obj']])
    if I.config.get('dask') and src and all(x.kind in ('da', 'ds') and x.lazy for x in src) and I.kinds(r) == {'np'}:
        # "Function must return an xarray DataArray or Dataset" for chunked input
        I.do_raise('TypeError', I.live, node, None, implicit=True)
        I.live = FALSE
        return NONE
    if I.trydepth:
        I.implicit_fail(H('map_blocks', (pk(I, r),)), '?', node)
    return r


@reg('dask.array.core.map_blocks', 'dask.array.map_blocks')
def d_map_blocks(I, args, kwargs, node):
    kw = {k: v for k, v in kwargs.items() if k not in ('chunks', 'dtype', 'drop_axis', 'new_axis', 'meta', 'name', 'token', 'enforce_ndim')}
    r = I.call(args[0], list(args[1:]), kw, node)
    I.ev('dask_map_blocks', node, drop=kwargs.get('drop_axis'), new=kwargs.get('new_axis'), chunks=kwargs.get('chunks'))
    for l in leaves(r):
        c = cellof(I, l)
        if c is not None:
            I.heap[l.id] = c.with_(lazy=True)
    return r


def interp1d(op):
    def f(I, args, kwargs, node):
        s = sig(args[:2], kwargs, 'x', 'xp')
        extra = list(args[2:])
        ax = s['*'].pop('axis', None)
        if len(extra) != 1:
            return NotImplemented
        al = [pk(I, s['x']), pk(I, s['xp']), pk(I, extra[0]), pk(I, ax) if ax is not None else T.ZERO] + extras(I, s['*'])
        cs = cells_of(I, [s['x'], s['xp'], extra[0]])
        r = H(op, al)
        if I.trydepth:
            I.implicit_fail(r, '?', node)
        return I.arr(r, 'np', cs, lazy=False)
    return f


TABLE['metpy.interpolate.interpolate_1d'] = interp1d('interp1d')
TABLE['metpy.interpolate.log_interpolate_1d'] = interp1d('loginterp1d')
TABLE['metpy.interpolate.one_dimension.interpolate_1d'] = interp1d('interp1d')
TABLE['metpy.interpolate.one_dimension.log_interpolate_1d'] = interp1d('loginterp1d')


@reg('uxarray.UxDataArray', 'uxarray.core.dataarray.UxDataArray')
def ux_da(I, args, kwargs, node):
    s = sig(args, kwargs, 'data')
    g = s['*'].get('uxgrid')

    def go(l):
        c = cellof(I, l)
        t = H('UxDataArray', (I._packed(I.full(l)), pk(I, g) if g is not None else NONE))
        return I.arr(t, 'da', [c] if c else [])
    return I.over(s['data'], go)


@reg('xarray.broadcast')
def x_broadcast(I, args, kwargs, node):
    return Tup([I.arr(T.lift(lambda *a: H('broadcast', a[1:] + (a[0],)), [I.val(x)] + [I.val(y) for y in args], ew=False), 'da', cells_of(I, [x])) for x in args])


@reg('xarray.zeros_like_', 'xarray.align_')
def x_never(I, args, kwargs, node):
    return NotImplemented


@reg('xarray.dot')
def x_dot(I, args, kwargs, node):
    return I.arr(H('xdot', sorted([pk(I, a) for a in args], key=lambda n: n.fp) + extras(I, kwargs)), 'da', cells_of(I, args))


@reg('numpy.vectorize')
def np_vectorize(I, args, kwargs, node):
    return NotImplemented
