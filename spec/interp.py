"""Reference: vertical and horizontal interpolation."""
import warnings
import metpy.interpolate
import cf_xarray
import numpy as np
import xarray as xr

MANDATORY = np.array([1000, 925, 850, 700, 500, 400, 300, 250, 200, 150, 100, 70, 50, 30, 20, 10, 7, 5, 3, 2, 1]).astype(np.float32) * 100.0


# ------------------------------------------------------------------ hybrid levels
def pressure_at_hybrid_levels(psfc, hya, hyb, p0=100000.0):
    n = sum([isinstance(x, np.ndarray) for x in (psfc, hya, hyb)])
    if not (isinstance(psfc, np.ndarray) and isinstance(hya, np.ndarray) and isinstance(hyb, np.ndarray)) and not (
            isinstance(psfc, xr.DataArray) and isinstance(hya, xr.DataArray) and isinstance(hyb, xr.DataArray)):
        raise TypeError("types")
    if hya.shape != hyb.shape:
        raise ValueError("shapes")
    if isinstance(hya, np.ndarray):
        if hya.ndim > 1:
            raise ValueError("1-d")
        hya, hyb = np.expand_dims(hya, axis=(1, 2)), np.expand_dims(hyb, axis=(1, 2))
    elif hya.dims != hyb.dims:
        warnings.warn("names")
        hyb = hyb.rename({b: a for a, b in zip(hya.dims, hyb.dims)})
    return hya * p0 + hyb * psfc


def delta_pressure_hybrid(ps, hya, hyb, p0=100000.0):
    for x in (ps, hya, hyb):
        if type(x) != xr.DataArray and type(x) != np.ndarray:
            raise TypeError("types")
    if type(p0) != float and type(p0) != int:
        raise TypeError("p0")
    if type(hya) != type(hyb):
        raise TypeError("mixed")
    if hya.shape != hyb.shape:
        raise ValueError("shapes")
    if hya.ndim > 1:
        raise ValueError("1-d")
    if isinstance(ps, np.ndarray) and isinstance(hya, xr.DataArray):
        hya, hyb = hya.values, hyb.values
    if isinstance(ps, xr.DataArray) and isinstance(hya, np.ndarray):
        hya, hyb = xr.DataArray(hya), xr.DataArray(hyb)
    if isinstance(ps, np.ndarray):
        hya, hyb = np.expand_dims(hya, axis=(1, 2)), np.expand_dims(hyb, axis=(1, 2))
    else:
        if len(hya.coords) > 0:
            hya = hya.drop(list(hya.coords)[0])
        if len(hyb.coords) > 0:
            hyb = hyb.drop(list(hyb.coords)[0])
        if set(hya.dims) != set(hyb.dims):
            hyb = hyb.rename({hyb.dims[0]: hya.dims[0]})
    upper = hya[:-1] * p0 + hyb[:-1] * ps
    lower = hya[1:] * p0 + hyb[1:] * ps
    out = abs(lower - upper)
    if isinstance(ps, xr.DataArray):
        out.name = 'dph'
    return out


# ------------------------------------------------------------------ below ground
def _warm(ps, p_sfc, t_bot, phi):
    """surface and sea level temperature of ECMWF's extrapolation (Trenberth et al. 1993)"""
    alpha = 0.0065 * 287.04 / 9.80616
    tstar = t_bot * (1 + alpha * (ps / p_sfc - 1))
    return alpha, tstar, tstar + 0.0065 * phi / 9.80616, phi / 9.80616


def _temperature(lev, ps, p_sfc, t_bot, phi):
    alpha, tstar, t0, hgt = _warm(ps, p_sfc, t_bot, phi)
    tpl = xr.apply_ufunc(np.minimum, 298, t0, dask='parallelized')
    mid = 0.002 * ((2500 - hgt) * t0 + (hgt - 2000) * tpl)
    tp = xr.where((hgt >= 2000) & (hgt <= 2500), mid, np.nan)
    tp = xr.where(hgt > 2500, tpl, tp)
    y = np.log(lev / ps)
    a = xr.where(hgt < 2000, alpha * y, 287.04 * (tp - tstar) / phi * y)
    a = xr.where(tp < tstar, 0, a)
    return tstar * (1 + a + a ** 2 / 2 + a ** 3 / 6)


def _height(lev, ps, p_sfc, t_bot, phi):
    alpha, tstar, t0, hgt = _warm(ps, p_sfc, t_bot, phi)
    a = xr.where((tstar <= 290.5) & (t0 > 290.5), 287.04 / phi * (290.5 - tstar), alpha)
    hot = (tstar > 290.5) & (t0 > 290.5)
    a = xr.where(hot, 0, a)
    t = xr.where(hot, 0.5 * (290.5 + tstar), tstar)
    t = xr.where(t < 255, 0.5 * (t + 255), t)
    y = np.log(lev / ps)
    return hgt - 287.04 * t / 9.80616 * y * (1 + a * y / 2 + (a * y) ** 2 / 6)


def _unpint(x, inpint):
    if not inpint and hasattr(x.data, '__module__'):
        if x.data.__module__ == 'pint':
            x.data = x.data.to('pascal').magnitude
    return x


def interp_hybrid_to_pressure(data, ps, hyam, hybm, p0=100000.0, new_levels=MANDATORY, lev_dim=None, method='linear', extrapolate=False,
                              variable=None, t_bot=None, phi_sfc=None):
    for x in (data, ps, hyam, hybm):
        if type(x) != type(data) or not isinstance(x, xr.DataArray):
            raise TypeError("types")
    if extrapolate and variable is None:
        raise ValueError("variable")
    if variable == 'geopotential' or variable == 'temperature':
        if t_bot is None or phi_sfc is None:
            raise ValueError("t_bot, phi_sfc")
    elif variable is not None and variable != 'other':
        raise ValueError("variable")
    inpint = False
    indask = False
    for x in (data, ps, hyam, hybm, new_levels):
        if isinstance(x, xr.DataArray) and hasattr(x.data, '__module__'):
            inpint = inpint or x.data.__module__ == 'pint'
            indask = indask or x.data.__module__ == 'dask.array.core'
    if lev_dim is None:
        try:
            data = data.cf.guess_coord_axis()
            lev_dim = data.cf['vertical'].name
        except Exception:
            raise ValueError("vertical")
    if method == 'linear':
        f = metpy.interpolate.interpolate_1d
    elif method == 'log':
        f = metpy.interpolate.log_interpolate_1d
    else:
        raise ValueError("method")
    axis = data.dims.index(lev_dim)
    p = pressure_at_hybrid_levels(ps, hyam, hybm, p0).transpose(*data.dims)
    if lev_dim in data.chunksizes and len(data.chunksizes[lev_dim]) != 1:
        warnings.warn("chunks")
    out = f(new_levels, p.data, data.data, axis=axis)
    out = _unpint(xr.DataArray(out, name=data.name, attrs=data.attrs), inpint)
    dims = [d if i != axis else 'plev' for i, d in enumerate(data.dims)]
    out = out.rename({out.dims[i]: dims[i] for i in range(out.ndim)})
    coords = {}
    for k, v in data.coords.items():
        if k == lev_dim:
            coords['plev'] = new_levels
        else:
            coords[k] = v
    out = out.transpose(*dims).assign_coords(coords)
    if extrapolate:
        k = p[lev_dim].argmax(dim=lev_dim)
        bottom = p.isel({lev_dim: k}, drop=True)
        lev = out.plev
        if variable == 'temperature':
            below = _temperature(lev, ps, bottom, t_bot, phi_sfc)
        elif variable == 'geopotential':
            below = _height(lev, ps, bottom, t_bot, phi_sfc)
        else:
            below = data.isel({lev_dim: k}, drop=True)
        out = _unpint(out.where(lev <= bottom, below), inpint)
    return out


# ------------------------------------------------------------------ sigma to hybrid
def interp_sigma_to_hybrid(data, sig_coords, ps, hyam, hybm, p0=100000.0, lev_dim=None, method='linear'):
    if lev_dim is None:
        try:
            lev_dim = data.cf['vertical'].name
        except Exception:
            raise ValueError("vertical")
    if method == 'linear':
        f = metpy.interpolate.interpolate_1d
    elif method == 'log':
        f = metpy.interpolate.log_interpolate_1d
    else:
        raise ValueError("method")
    sigma = hyam * p0 / ps + hybm
    dtype = np.result_type(data.dtype, np.float16)
    if data.ndim > 1:
        others = list(data.dims)
        others.remove(lev_dim)
        columns = data.stack(combined=others).transpose()
        targets = sigma.stack(combined=others).transpose()
        hlev = targets[0, :].copy()
        out = columns.isel({lev_dim: [0] * len(hyam)}).astype(dtype)
        for i, (col, target) in enumerate(zip(columns, targets)):
            out[i, :] = xr.DataArray(f(target.data, sig_coords.data, col.data, axis=0), dims=[lev_dim])
        out = out.unstack().transpose(*data.dims)
    else:
        hlev = sigma
        out = data.isel({lev_dim: [0] * len(hyam)}).astype(dtype)
        out[:len(hyam)] = xr.DataArray(f(sigma.data, sig_coords.data, data.data, axis=0), dims=[lev_dim])
    return out.rename({lev_dim: 'hlev'}).assign_coords({'hlev': hlev.data})


# ------------------------------------------------------------------ horizontal
def interp_multidim(data_in, lat_out, lon_out, lat_in=None, lon_in=None, cyclic=False, missing_val=None, method='linear', fill_value=np.nan):
    if not isinstance(data_in, xr.DataArray):
        if lat_in is None or lon_in is None:
            raise ValueError("coordinates")
        data_in = xr.DataArray(data_in, dims=['lat', 'lon'], coords={'lat': lat_in, 'lon': lon_in})
    lat, lon = data_in.dims[-2], data_in.dims[-1]
    x = data_in
    if missing_val is not None:
        x = xr.DataArray(np.where(x.values == missing_val, np.nan, x.values), dims=x.dims, coords=x.coords)
    if cyclic:
        lons = np.pad(x.coords[lon], (1, 1), mode='wrap')
        turn = 360 if lons[1] <= lons[-2] else -360         # the way the longitudes run
        lons[0] = lons[0] - turn
        lons[-1] = lons[-1] + turn
        x = xr.DataArray(np.pad(x.values, ((0, 0), (1, 1)), mode='wrap'), dims=x.dims, coords={lat: x.coords[lat].values, lon: lons})
    out = x.interp({lon: lon_out, lat: lat_out}, method=method, kwargs={'fill_value': fill_value})
    if missing_val is not None:
        out = xr.DataArray(np.where(np.isnan(out.values), missing_val, out.values), dims=out.dims, coords=out.coords)
    return out


def interp_multidim_same_type(data_in, lat_out, lon_out, lat_in=None, lon_in=None, cyclic=False, missing_val=None, method='linear', fill_value=np.nan):
    """as documented: the same type of object as data_in"""
    out = interp_multidim(data_in, lat_out, lon_out, lat_in, lon_in, cyclic, missing_val, method, fill_value)
    return out if isinstance(data_in, xr.DataArray) else out.values
