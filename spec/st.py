"""Reference: statistics."""
import cf_xarray
import warnings
import numpy as np
import xarray as xr
import xskillscore as xs
import xskillscore.core.np_deterministic as xsi
from eofs.xarray import Eof
import geocat.comp as gc


# ------------------------------------------------------------------ normalized mean squared error
def _spacing(x):
    d = np.diff(x, axis=0)
    return np.diff(x, axis=1) if all(d.ravel() == 0) else d


def nmse(observed, modeled):
    for x in (observed, modeled):
        if type(x) not in (xr.DataArray, xr.Dataset):
            raise TypeError("type")
    if type(observed) != type(modeled):
        raise TypeError("mixed")
    if set(observed.coords) != set(modeled.coords):
        raise KeyError("coords")
    o, m = observed.cf.guess_coord_axis(), modeled.cf.guess_coord_axis()
    for x in (o, m):
        for c in ('latitude', 'longitude'):
            if c not in x.cf.keys():
                raise ValueError("no lat/lon")
    la, lo = _spacing(o.cf['latitude']), _spacing(o.cf['longitude'])
    if not np.allclose(la, la[0]) or not np.allclose(lo, lo[0]):
        raise ValueError("uneven")
    if len(o.cf.coordinates['latitude']) > 1 or len(o.cf.coordinates['longitude']) > 1:
        raise ValueError("several")
    space = set(o.cf['latitude'].dims) | set(o.cf['longitude'].dims)
    w = np.cos(np.deg2rad(o.cf['latitude']))
    w = w.where(~(np.isnan(o) | np.isnan(m)), 0)
    o, m = o.where(w != 0, 0), m.where(w != 0, 0)
    if isinstance(w, xr.Dataset):
        w = w.to_dataarray()
    if not isinstance(w, xr.DataArray):
        w = xr.DataArray(w)
    mean = o.weighted(w).mean(dim=space)
    num = ((m - o) ** 2).weighted(w).mean(dim=space)
    den = ((o - mean) ** 2).weighted(w).mean(dim=space)
    return num / den


# ------------------------------------------------------------------ correlation
def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis=None):
    xa, xb = isinstance(a, (xr.DataArray, xr.Dataset)), isinstance(b, (xr.DataArray, xr.Dataset))
    both = dim is not None and axis is not None
    if xa or xb:
        if both:
            warnings.warn("axis unused")
        try:
            return xs.pearson_r(a, b, dim=dim, weights=weights, skipna=skipna, keep_attrs=keep_attrs)
        except ValueError as e:
            raise ValueError("weights") from e
    if both:
        warnings.warn("dim unused")
    if axis is None:
        a, b, axis = np.ravel(a), np.ravel(b), 0
        if weights is not None:
            weights = np.ravel(weights)
    try:
        return xsi._pearson_r(a, b, weights, axis, skipna)
    except ValueError as e:
        raise ValueError("weights") from e


# ------------------------------------------------------------------ EOF analysis
def _setup(data, time_dim):
    isxr = isinstance(data, xr.DataArray)
    if not isxr:
        data = np.asarray(data)
        if time_dim >= data.ndim or time_dim < -data.ndim:
            raise ValueError("time_dim")
        data = np.moveaxis(data, time_dim, 0)
        data = xr.DataArray(data, dims=['time'] + ['dim_%d' % i for i in range(1, data.ndim)])
    return data, isxr


def eofunc_eofs(data, neofs=1, time_dim=0, eofscaling=0, weights=None, center=True, ddof=1, vfscaled=False, meta=False):
    data, isxr = _setup(data, time_dim)
    time_dim = range(data.ndim)[time_dim]
    solver = Eof(data, weights=weights, center=center, ddof=ddof)
    if neofs <= 0:
        raise ValueError("neofs")
    attrs = {}
    if meta:
        attrs = dict(data.attrs)
    attrs['eigenvalues'] = solver.eigenvalues(neigs=neofs)
    attrs['northTest'] = solver.northTest(neigs=neofs, vfscaled=vfscaled)
    attrs['totalAnomalyVariance'] = solver.totalAnomalyVariance()
    attrs['varianceFraction'] = solver.varianceFraction(neigs=neofs)
    coords = {}
    if meta:
        t = data.dims[time_dim if isxr else 0]
        dims = ['eof'] + [d for d in data.dims if d != t]
        coords = {k: v for k, v in data.coords.items() if k != t}
    else:
        dims = ['eof'] + ['dim_%d' % i for i in range(data.ndim) if i != time_dim]
    return xr.DataArray(solver.eofs(neofs=neofs, eofscaling=eofscaling), dims=dims, coords=coords, attrs=attrs)


def eofunc_pcs(data, npcs=1, time_dim=0, pcscaling=0, weights=None, center=True, ddof=1, meta=False):
    data, isxr = _setup(data, time_dim)
    time_dim = range(data.ndim)[time_dim]
    solver = Eof(data, weights=weights, center=center, ddof=ddof)
    if npcs <= 0:
        raise ValueError("npcs")
    attrs, coords = {}, {}
    if meta:
        attrs = dict(data.attrs)
        t = data.dims[time_dim if isxr else 0]
        if t in data.coords:
            coords = {'time': data.coords[t]}
    return xr.DataArray(solver.pcs(npcs=npcs, pcscaling=pcscaling).transpose(), dims=['pc', 'time'], coords=coords, attrs=attrs)


def eofunc(data, neval, **kwargs):
    data = np.asarray(data)
    return gc.eofunc_eofs(data, neofs=neval, time_dim=int(kwargs.get('time_dim', data.ndim - 1)), meta=bool(kwargs.get('meta')))


def eofunc_ts(data, evec, **kwargs):
    data = np.asarray(data)
    return gc.eofunc_pcs(data, npcs=evec.shape[0], time_dim=int(kwargs.get('time_dim', data.ndim - 1)), meta=bool(kwargs.get('meta')))
