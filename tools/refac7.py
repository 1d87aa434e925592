"""Hand-made behaviour-preserving rewrites: lookups, extrapolation, hybrid levels, deprecated stubs."""
R = []
def r(i, f, e): R.append((i, 'geocat/comp/' + f, e))
M, C, I, U, D, S = 'meteorology.py', 'climatologies.py', 'interpolation.py', 'gc_util.py', 'deprecated.py', 'stats.py'

r('y01', U, [('@func _find_var', '''
def _name_variations(standard_name):
    words = standard_name.split('_')
    return {
        standard_name,
        standard_name.lower(),
        standard_name.upper(),
        standard_name.capitalize(),
        '_'.join(word.capitalize() for word in words),
    }


def _match(ds, attribute, accepted):
    for var_name in ds.data_vars:
        value = ds[var_name].attrs.get(attribute, '')
        if var_name in accepted or value in accepted:
            return var_name
    return None


def _find_var(
    ds,
    standard_name=None,
    long_name=None,
    possible_names=None,
    description="variable",
):
    error_parts = []

    if standard_name:
        found = _match(ds, 'standard_name', _name_variations(standard_name))
        if found is not None:
            return found
        error_parts.append(f"Tried standard_name: {standard_name}.")

    if long_name:
        accepted = {
            long_name,
            long_name.lower(),
            long_name.upper(),
            long_name.capitalize(),
            ' '.join(word.capitalize() for word in long_name.split(' ')),
            '_'.join(word.capitalize() for word in long_name.split('_')),
            long_name.replace(' ', '_'),
            long_name.replace('_', ' '),
        }
        found = _match(ds, 'long_name', accepted)
        if found is not None:
            return found
        error_parts.append(f"Tried long_name: {long_name}.")

    if possible_names:
        for name in possible_names:
            for candidate in (
                name,
                name.lower(),
                name.upper(),
                name.capitalize(),
                '_'.join(word.capitalize() for word in name.split('_')),
            ):
                if candidate in ds:
                    return candidate
        error_parts.append(f"Tried names: {possible_names}.")

    raise KeyError(
        f"Could not find {description} in dataset. {' '.join(error_parts)}"
    )
''')])
r('y02', D, [('@func linint1', '''
def _moved(name):
    warnings.warn(
        f"To use this function, install the geocat-f2py package and import as ``geocat.f2py.{name}``."
    )


def linint1(*args, **kwargs):
    return _moved("linint1")
''')])
r('y03', I, [('@func _geo_height_extrapolate', '''
def _geo_height_extrapolate(t_bot, lev, p_sfc, ps, phi_sfc):
    R_d = 287.04  # dry air gas constant
    g_inv = 1 / 9.80616  # inverse of gravity
    alpha = 0.0065 * R_d * g_inv
    limit = 290.5

    tstar = t_bot * (1 + alpha * (ps / p_sfc - 1))
    hgt = phi_sfc * g_inv
    t0 = tstar + 0.0065 * hgt
    log_ratio = np.log(lev / ps)

    warm_below = t0 > limit
    warm_both = (tstar > limit) & warm_below
    warm_only_below = (tstar <= limit) & warm_below

    alph = xr.where(warm_only_below, R_d / phi_sfc * (limit - tstar), alpha)
    alph = xr.where(warm_both, 0, alph)

    tstar = xr.where(warm_both, 0.5 * (limit + tstar), tstar)
    tstar = xr.where(tstar < 255, 0.5 * (tstar + 255), tstar)

    alnp = alph * log_ratio
    series = 1 + 0.5 * alnp + 1 / 6 * alnp**2
    return hgt - R_d * tstar * g_inv * log_ratio * series
''')])
r('y04', I, [('''
    pa = p0 * hya[:-1] + hyb[:-1] * ps
    pb = p0 * hya[1:] + hyb[1:] * ps
    dph = abs(pa - pb)
''', '''
    def level(part):
        return p0 * hya[part] + hyb[part] * ps

    upper = level(slice(None, -1))
    lower = level(slice(1, None))
    dph = abs(lower - upper)
''')])
r('y05', I, [('''
    output = xr.DataArray(output, name=data.name, attrs=data.attrs)
''', '''
    attrs = data.attrs
    output = xr.DataArray(data=output, attrs=attrs, name=data.name)
'''), ('''
    dims = [data.dims[i] if i != interp_axis else 'plev' for i in range(data.ndim)]
    dims_dict = {output.dims[i]: dims[i] for i in range(len(output.dims))}
    output = output.rename(dims_dict)
''', '''
    dims = ['plev' if i == interp_axis else d for i, d in enumerate(data.dims)]
    output = output.rename(dict(zip(output.dims, dims)))
''')])
r('y06', I, [('''
    in_types = []
    in_pint = False
    in_dask = False
    for i in [data, ps, hyam, hybm, new_levels]:
        it = type(i)
        in_types.append(it)
        if isinstance(i, xr.DataArray):
            if hasattr(i.data, '__module__'):
                if i.data.__module__ == 'pint':
                    in_pint = True
                if i.data.__module__ == 'dask.array.core':
                    in_dask = True
''', '''
    arguments = [data, ps, hyam, hybm, new_levels]
    in_types = [type(i) for i in arguments]
    modules = [
        getattr(i.data, '__module__', None)
        for i in arguments
        if isinstance(i, xr.DataArray)
    ]
    in_pint = 'pint' in modules
    in_dask = 'dask.array.core' in modules
''')])
r('y07', I, [('''
    if variable not in ['geopotential', 'temperature', 'other', None]:
        raise ValueError('The value of `variable` is ' + variable + ", but the accepted values are 'temperature', 'geopotential', 'other', or None.")
''', '''
    accepted = ('temperature', 'geopotential', 'other')
    if not (variable is None or variable in accepted):
        raise ValueError(
            f"The value of `variable` is {variable}, but the accepted values are 'temperature', 'geopotential', 'other', or None."
        )
''')])
r('y08', S, [('''
    if len(lat_name) > 1 or len(lon_name) > 1:
        raise ValueError(
            f"Multiple latitude/longitude coordinates not supported. Found lat: {lat_name} and lon: {lon_name} "
        )
''', '''
    if max(len(lat_name), len(lon_name)) > 1:
        raise ValueError(
            f"Multiple latitude/longitude coordinates not supported. Found lat: {lat_name} and lon: {lon_name} "
        )
''')])
r('y09', M, [('@func psychrometric_constant', '''
def psychrometric_constant(pressure):
    con = 0.66474e-3
    if type(pressure) is xr.DataArray:
        psy_const = pressure * con
        psy_const.attrs.update(
            {
                'long_name': "psychrometric constant",
                'units': "kPa/C",
                'url': "https://www.fao.org/docrep/X0490E/x0490e07.htm",
                'info': "FAO 56; EQN 8; psychrometric_constant",
            }
        )
        return psy_const
    return con * np.asarray(pressure)
''')])
r('y10', M, [('''
    if da_v_zonal.plev.isel(plev=0) < da_v_zonal.plev.isel(plev=-1):
        integrand = da_v_zonal * da_dp_zonal
        da_mpsi = integrand.cumsum(dim='plev')
    else:
        integrand = (da_v_zonal * da_dp_zonal).isel({'plev': slice(None, None, -1)})
        da_mpsi = integrand.cumsum(dim='plev').isel({'plev': slice(None, None, -1)})
''', '''
    integrand = da_v_zonal * da_dp_zonal
    plev = da_v_zonal.plev
    top_first = plev.isel(plev=0) < plev.isel(plev=-1)
    flip = {'plev': slice(None, None, -1)}
    if not top_first:
        da_mpsi = integrand.isel(flip).cumsum(dim='plev').isel(flip)
    else:
        da_mpsi = integrand.cumsum(dim='plev')
''')])
r('y11', M, [('''
    if not plev_coordname:
        plev_coordname = _find_optional_var(uxds, standard_name='air_pressure', possible_names=['plev', 'pressure_lev', 'pressure_levels'], description='pressure coordinate')
''', '''
    plev_coordname = plev_coordname or _find_optional_var(
        uxds,
        standard_name='air_pressure',
        possible_names=['plev', 'pressure_lev', 'pressure_levels'],
        description='pressure coordinate',
    )
''')])
r('y12', M, [('''
    if not all(np.shape(x) == np.shape(inputs[0]) for x in inputs):
        raise ValueError("relhum: dimensions of inputs are not the same")
''', '''
    shapes = {np.shape(x) for x in inputs}
    if len(shapes) > 1:
        raise ValueError("relhum: dimensions of inputs are not the same")
''')])
