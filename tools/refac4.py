"""Behaviour-preserving rewrites made by hand: interpolation."""
from refac2 import M, S, F, G, I, C, U, P
R = []


def r(i, f, e):
    R.append((i, f, e))


r('i01', I, [('@func _func_interpolate', '''
_METHODS = {
    'linear': metpy.interpolate.interpolate_1d,
    'log': metpy.interpolate.log_interpolate_1d,
}


def _func_interpolate(method='linear'):
    if method not in _METHODS:
        raise ValueError(
            f'Unknown interpolation method: {method}. '
            f'Supported methods are: "log" and "linear".'
        )
    return _METHODS[method]
'''), ('@func _interpolate_mb', '''
def _interpolate_mb(data, curr_levels, new_levels, axis, method='linear'):
    return _func_interpolate(method)(new_levels, curr_levels, data, axis=axis)
''')])
r('i02', I, [('@func _pre_interp_multidim', '''
def _pre_interp_multidim(data_in, cyclic, missing_val):
    if missing_val is not None:
        values = data_in.values
        data_in = xr.DataArray(
            np.where(values != missing_val, values, np.nan),
            coords=data_in.coords,
            dims=data_in.dims,
        )
    if not cyclic:
        return data_in

    lat_dim, lon_dim = data_in.dims[-2], data_in.dims[-1]
    lon = np.pad(data_in.coords[lon_dim], (1, 1), mode='wrap')
    lon[0] = lon[0] - 360
    lon[-1] = lon[-1] + 360
    padded = np.pad(data_in.values, [(0, 0), (1, 1)], mode='wrap')
    coords = {lat_dim: data_in.coords[lat_dim].values, lon_dim: lon}
    return xr.DataArray(padded, dims=data_in.dims, coords=coords)
'''), ('@func _post_interp_multidim', '''
def _post_interp_multidim(data_in, missing_val):
    if missing_val is None:
        return data_in
    values = data_in.values
    filled = np.where(np.isnan(values), missing_val, values)
    return xr.DataArray(filled, dims=data_in.dims, coords=data_in.coords)
''')])
r('i03', I, [('@func _temp_extrapolate', '''
def _tstar(t_bot, p_sfc, ps, phi_sfc, lapse=0.0065):
    gas = 287.04
    alpha = lapse * gas / 9.80616
    star = t_bot * (1 + alpha * (ps / p_sfc - 1))
    height = phi_sfc / 9.80616
    return gas, alpha, star, height, star + lapse * height


def _temp_extrapolate(t_bot, lev, p_sfc, ps, phi_sfc):
    R_d, alpha, tstar, hgt, t0 = _tstar(t_bot, p_sfc, ps, phi_sfc)
    tplat = xr.apply_ufunc(np.minimum, 298, t0, dask='parallelized')

    ramp = 0.002 * ((2500 - hgt) * t0 + (hgt - 2000) * tplat)
    between = (hgt >= 2000) & (hgt <= 2500)
    tprime0 = xr.where(hgt > 2500, tplat, xr.where(between, ramp, np.nan))

    logp = np.log(lev / ps)
    slope = xr.where(hgt < 2000, alpha, R_d * (tprime0 - tstar) / phi_sfc)
    alnp = xr.where(tprime0 < tstar, 0, slope * logp)

    return tstar * (1 + alnp + alnp**2 / 2 + alnp**3 / 6)
'''), ('@func _geo_height_extrapolate', '''
def _geo_height_extrapolate(t_bot, lev, p_sfc, ps, phi_sfc):
    R_d, alpha, tstar, hgt, t0 = _tstar(t_bot, p_sfc, ps, phi_sfc)

    hot = t0 > 290.5
    both = (tstar > 290.5) & hot
    alph = xr.where((tstar <= 290.5) & hot, R_d / phi_sfc * (290.5 - tstar), alpha)
    alph = xr.where(both, 0, alph)
    tstar = xr.where(both, (290.5 + tstar) / 2, tstar)
    tstar = xr.where(tstar < 255, (tstar + 255) / 2, tstar)

    logp = np.log(lev / ps)
    alnp = alph * logp
    series = 1 + alnp / 2 + alnp**2 / 6
    return hgt - R_d / 9.80616 * tstar * logp * series
''')])
r('i04', I, [('@func _vertical_remap_extrap', '''
def _vertical_remap_extrap(
    new_levels, lev_dim, data, output, pressure, ps, variable, t_bot, phi_sfc
):
    bottom = {lev_dim: pressure[lev_dim].argmax(dim=lev_dim)}
    p_sfc = pressure.isel(bottom, drop=True)
    lev = output.plev
    formulas = {
        'temperature': _temp_extrapolate,
        'geopotential': _geo_height_extrapolate,
    }
    formula = formulas.get(variable)
    if formula is None:
        below = data.isel(bottom, drop=True)
    else:
        below = formula(t_bot, lev, p_sfc, ps, phi_sfc)
    return output.where(lev <= p_sfc, below)
''')])
r('i05', I, [('@func pressure_at_hybrid_levels', '''
def pressure_at_hybrid_levels(psfc, hya, hyb, p0=100000.0):
    inputs = (psfc, hya, hyb)
    all_numpy = all([isinstance(x, np.ndarray) for x in inputs])
    all_xarray = all([isinstance(x, xr.DataArray) for x in inputs])

    for x in inputs:
        if not (isinstance(x, xr.DataArray) or isinstance(x, np.ndarray)):
            raise TypeError(
                "psfc, hya, and hyb must be xarray DataArrays or numpy arrays"
            )
    if not all_numpy and not all_xarray:
        raise TypeError(
            "psfc, hya, and hyb must all be the same type (all numpy arrays or all xarray DataArrays)"
        )
    if hya.shape != hyb.shape:
        raise ValueError(f'dimension mismatch: hya: {hya.shape} hyb: {hyb.shape}')

    if all_xarray:
        if hya.dims != hyb.dims:
            warnings.warn(
                "hya and hyb have different dimension names, attempting rename"
            )
            names = {}
            for new, old in zip(hya.dims, hyb.dims):
                names[old] = new
            hyb = hyb.rename(names)
        return psfc * hyb + p0 * hya

    if hya.ndim > 1:
        raise ValueError(
            f'hya and hyb must be 1-dimensional if numpy inputs: {hya.shape}'
        )
    return psfc * hyb[:, np.newaxis, np.newaxis] + p0 * hya[:, np.newaxis, np.newaxis]
''')])
r('i06', I, [('@func delta_pressure_hybrid', '''
def delta_pressure_hybrid(ps, hya, hyb, p0=100000.0):
    out_type = type(ps)
    if any(type(x) not in (xr.DataArray, np.ndarray) for x in (ps, hya, hyb)):
        raise TypeError("Inputs must be xarray DataArrays or numpy arrays")
    if not (type(p0) is float or type(p0) is int):
        raise TypeError(f"p0 must be a scalar numeric value, received {type(p0)}")
    if type(hya) is not type(hyb):
        raise TypeError(
            f"hya and hyb must be the same type. hya: {type(hya)} hyb: {type(hyb)}"
        )
    if hya.shape != hyb.shape:
        raise ValueError(f'dimension mismatch: hya: {hya.shape} hyb: {hyb.shape}')
    if hya.ndim > 1:
        raise ValueError(f'hya and hyb must be 1-dimensional: {hya.shape}')

    if out_type is np.ndarray:
        if not isinstance(hya, np.ndarray):
            hya, hyb = hya.values, hyb.values
        hya = np.expand_dims(hya, axis=(1, 2))
        hyb = np.expand_dims(hyb, axis=(1, 2))
    else:
        if not isinstance(hya, xr.DataArray):
            hya, hyb = xr.DataArray(hya), xr.DataArray(hyb)
        if len(hya.coords) > 0:
            hya = hya.drop(list(hya.coords)[0])
        if len(hyb.coords) > 0:
            hyb = hyb.drop(list(hyb.coords)[0])
        if set(hya.dims) != set(hyb.dims):
            hyb = hyb.rename({hyb.dims[0]: hya.dims[0]})

    def interface(levels):
        return p0 * hya[levels] + hyb[levels] * ps

    dph = abs(interface(slice(None, -1)) - interface(slice(1, None)))

    if out_type is not xr.DataArray:
        return dph
    dph = dph.drop_attrs()
    dph.name = "dph"
    dph.attrs.update({'long_name': "pressure layer thickness", 'units': 'Pa'})
    return dph
''')])
r('i07', I, [('''    for i in [data, ps, hyam, hybm, new_levels]:
''', '''    for i in (data, ps, hyam, hybm, new_levels):
'''), ('''    if variable in ['geopotential', 'temperature'] and (
        t_bot is None or phi_sfc is None
    ):
''', '''    needs_surface = variable == "geopotential" or variable == "temperature"
    if needs_surface and any(x is None for x in (t_bot, phi_sfc)):
''') , ('''    dims = [data.dims[i] if i != interp_axis else "plev" for i in range(data.ndim)]
''', '''    dims = list(data.dims)
    dims[interp_axis] = "plev"
'''), ('''    dims_dict = {output.dims[i]: dims[i] for i in range(len(output.dims))}
    output = output.rename(dims_dict)
''', '''    output = output.rename(dict(zip(output.dims, dims)))
''')])
r('i08', I, [('''    coords = {}
    for k, v in data.coords.items():
        if k != lev_dim:
            coords.update({k: v})
        else:
            coords.update({"plev": new_levels})

''', '''    coords = {k: v for k, v in data.coords.items() if k != lev_dim}
    if lev_dim in data.coords:
        coords["plev"] = new_levels

'''), ('''    interp_axis = data.dims.index(lev_dim)
''', '''    interp_axis = data.get_axis_num(lev_dim)
'''), ('''    try:
        func_interpolate = _func_interpolate(method)
    except ValueError as vexc:
        raise ValueError(vexc.args[0])

    interp''', '''    func_interpolate = _func_interpolate(method)

    interp''')])
r('i09', I, [('@func interp_sigma_to_hybrid', '''
def interp_sigma_to_hybrid(
    data,
    sig_coords,
    ps,
    hyam,
    hybm,
    p0=100000.0,
    lev_dim=None,
    method='linear',
):
    if lev_dim is None:
        try:
            lev_dim = data.cf["vertical"].name
        except Exception:
            raise ValueError(
                "Unable to determine vertical dimension name. Please specify the name via `lev_dim` argument.'"
            )
    func_interpolate = _func_interpolate(method)
    sigma = _sigma_from_hybrid(ps, hyam, hybm, p0)
    nlev = len(hyam)

    if data.ndim == 1:
        h_coords = sigma
        output = data[:nlev].copy()
        output[:nlev] = xr.DataArray(
            _vertical_remap(func_interpolate, sigma.data, sig_coords.data, data.data),
            dims=[lev_dim],
        )
    else:
        others = [d for d in data.dims if d != lev_dim]
        columns = data.stack(combined=others).transpose()
        sigmas = sigma.stack(combined=others).transpose()
        h_coords = sigmas[0, :].copy()
        output = columns[:, :nlev].copy()
        for k in range(len(columns)):
            column = _vertical_remap(
                func_interpolate, sigmas[k].data, sig_coords.data, columns[k].data
            )
            output[k, :] = xr.DataArray(column, dims=[lev_dim])
        output = output.unstack().transpose(*data.dims)

    return output.rename({lev_dim: 'hlev'}).assign_coords(hlev=h_coords.data)
''')])
r('i10', I, [('@func interp_multidim', '''
def interp_multidim(
    data_in,
    lat_out,
    lon_out,
    lat_in=None,
    lon_in=None,
    cyclic=False,
    missing_val=None,
    method="linear",
    fill_value=np.nan,
):
    if not isinstance(data_in, xr.DataArray):
        if any(c is None for c in (lat_in, lon_in)):
            raise ValueError(
                "Argument lat_in and lon_in must be provided if data_in is not an xarray"
            )
        coords = {'lat': lat_in, 'lon': lon_in}
        data_in = xr.DataArray(data_in, coords=coords, dims=list(coords))

    *_, lat_dim, lon_dim = data_in.dims
    prepared = _pre_interp_multidim(data_in, cyclic, missing_val)
    interpolated = prepared.interp(
        {lat_dim: lat_out, lon_dim: lon_out},
        method=method,
        kwargs=dict(fill_value=fill_value),
    )
    return _post_interp_multidim(interpolated, missing_val)
''')])
