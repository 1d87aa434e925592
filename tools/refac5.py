"""Hand-made behaviour-preserving rewrites: gradient, fourier filters, stats, spherical, gc_util, psi."""
R = []
def r(i, f, e): R.append((i, 'geocat/comp/' + f, e))
G, F, S, V, U, M = 'gradient.py', 'fourier_filters.py', 'stats.py', 'spherical.py', 'gc_util.py', 'meteorology.py'

# --- gradient
r('g01', G, [('''    axis0loc = _arc_lat_wgs84(lat2d)
    axis1loc = _arc_lon_wgs84(lon2d, lat2d)

    axis0dist = np.gradient(axis0loc, axis=0)
    axis1dist = np.gradient(axis1loc, axis=1)

    grad = np.gradient(data)

    axis0grad = grad[0] / axis0dist
    axis1grad = grad[1] / axis1dist
''', '''    axis0dist = np.gradient(_arc_lat_wgs84(lat2d), axis=0)
    axis1dist = np.gradient(_arc_lon_wgs84(lon2d, lat2d), axis=1)

    g0, g1 = np.gradient(data)[:2]
    axis0grad, axis1grad = g0 / axis0dist, g1 / axis1dist
''')])
r('g02', G, [('''        axis0grad = xr.DataArray(
            axis0grad,
            dims=["x", "y"],
            coords=dict(
                lon=(["x", "y"], lon2d.data),
                lat=(["x", "y"], lat2d.data),
            ),
        )

        axis1grad = xr.DataArray(
            axis1grad,
            dims=["x", "y"],
            coords=dict(
                lon=(["x", "y"], lon2d.data),
                lat=(["x", "y"], lat2d.data),
            ),
        )
''', '''        dims = ["x", "y"]
        coords = {'lon': (dims, lon2d.data), 'lat': (dims, lat2d.data)}
        axis0grad, axis1grad = [
            xr.DataArray(g, dims=dims, coords=coords) for g in (axis0grad, axis1grad)
        ]
''')])
r('g03', G, [('''    if len(lon.shape) == 1 and len(lat.shape) == 1:
        lon2d, lat2d = np.meshgrid(lon, lat)
    elif len(lon.shape) == 2 and len(lat.shape) == 2:
        lon2d, lat2d = lon, lat
    else:
        raise ValueError("lat or lon must be either both 1d or 2d.")
''', '''    ndims = (len(lon.shape), len(lat.shape))
    if ndims not in ((1, 1), (2, 2)):
        raise ValueError("lat or lon must be either both 1d or 2d.")
    lon2d, lat2d = np.meshgrid(lon, lat) if ndims == (1, 1) else (lon, lat)
''')])
r('g04', G, [('''    return _rad_lat_wgs84(lat) * np.cos(lat * d2r) * lon * d2r
''', '''    radius = _rad_lat_wgs84(lat)
    parallel = radius * np.cos(lat * d2r)
    return parallel * (lon * d2r)
''')])
r('g05', G, [('''            if data.coords is not None:
                if 'lat' in data.coords.keys() and 'lon' in data.coords.keys():
                    lon = data.coords['lon']
                    lat = data.coords['lat']
''', '''            if 'lat' in data.coords and 'lon' in data.coords:
                lat, lon = data['lat'], data['lon']
''')])
r('g06', G, [('    if type(data) in [xr.core.dataarray.DataArray, xr.core.dataset.Dataset]:\n', '    if type(data) is xr.DataArray or type(data) is xr.Dataset:\n')])

# --- fourier
r('f01', F, [('''    if low_pass:
        if cfl_index > 1:
            res_fft[cfl_index:cfln_index] = np.zeros(
                res_fft[cfl_index:cfln_index].shape
            )
        else:
            res_fft[cfl_index:] = np.zeros(res_fft[cfl_index:].shape)
''', '''    if low_pass:
        stop = cfln_index if cfl_index > 1 else None
        res_fft[cfl_index:stop] = 0
''')])
r('f02', F, [('''    if type(signal) is xr.DataArray:
        xr_result = signal.copy()
        xr_result.data = result
        result = xr_result
    return result
''', '''    if type(signal) is xr.DataArray:
        return signal.copy(data=result)
    return result
''')])
r('f03', F, [('''    result = np.fft.ifft(res_fft, axis=0)
    result = np.real(result)
    result = np.swapaxes(result, time_axis, 0)
''', '''    result = np.swapaxes(np.fft.ifft(res_fft, axis=0).real, 0, time_axis)
''')])
r('f04', F, [('''    data = np.swapaxes(np.asarray(signal), time_axis, 0)
    resolution = frequency / len(data)
    res_fft = np.fft.fft(data, axis=0)
''', '''    raw = np.asarray(signal)
    data = np.swapaxes(raw, 0, time_axis)
    res_fft = np.fft.fft(data, axis=0)
    resolution = frequency / data.shape[0]
''')])
r('f05', F, [('''    if high_pass:
        res_fft[:cfh_index] = np.zeros(res_fft[:cfh_index].shape)
        if cfh_index > 1:
            res_fft[cfhn_index:] = np.zeros(res_fft[cfhn_index:].shape)
''', '''    def blank(part):
        res_fft[part] = np.zeros(res_fft[part].shape)

    if high_pass:
        blank(slice(None, cfh_index))
        if cfh_index > 1:
            blank(slice(cfhn_index, None))
''')])
r('f06', F, [('''    cfl_index = m.floor(cutoff_frequency_low / resolution)
    cfln_index = 1 - cfl_index
    cfh_index = m.ceil(cutoff_frequency_high / resolution)
    cfhn_index = 1 - cfh_index
''', '''    cfl_index = int(np.floor(cutoff_frequency_low / resolution))
    cfh_index = int(np.ceil(cutoff_frequency_high / resolution))
    cfln_index, cfhn_index = 1 - cfl_index, 1 - cfh_index
''')])
r('f07', F, [('''    return fourier_filter(
        signal,
        frequency,
        cutoff_frequency_low=cutoff_frequency_low,
        time_axis=time_axis,
        low_pass=True,
    )
''', '''    options = {'time_axis': time_axis, 'low_pass': True}
    filtered = fourier_filter(signal, frequency, cutoff_frequency_low, **options)
    return filtered
''')])

# --- stats
r('s01', S, [('''    num = (modeled - observed) ** 2
    num = num.weighted(weights).mean(dim=spatial_dims)

    denom = (observed - observed_w) ** 2
    denom = denom.weighted(weights).mean(dim=spatial_dims)

    metric = num / denom
''', '''    def wmean(x):
        return x.weighted(weights).mean(dim=spatial_dims)

    metric = wmean((observed - modeled) ** 2) / wmean((observed - observed_w) ** 2)
''')])
r('s02', S, [('''    attrs = {}
    if meta:
        attrs = dict(data.attrs)
    attrs['eigenvalues'] = solver.eigenvalues(neigs=neofs)
    attrs['northTest'] = solver.northTest(neigs=neofs, vfscaled=vfscaled)
    attrs['totalAnomalyVariance'] = solver.totalAnomalyVariance()
    attrs['varianceFraction'] = solver.varianceFraction(neigs=neofs)
''', '''    attrs = data.attrs.copy() if meta else {}
    attrs.update(
        eigenvalues=solver.eigenvalues(neigs=neofs),
        northTest=solver.northTest(neigs=neofs, vfscaled=vfscaled),
        totalAnomalyVariance=solver.totalAnomalyVariance(),
        varianceFraction=solver.varianceFraction(neigs=neofs),
    )
''')])
r('s03', S, [('''        time_name = data.dims[time_dim if is_xr else 0]
        dims = ['eof'] + [dim for dim in data.dims if dim != time_name]
        coords = {k: v for k, v in data.coords.items() if k != time_name}
''', '''        time_name = data.dims[time_dim] if is_xr else data.dims[0]
        dims = ['eof']
        for dim in data.dims:
            if dim != time_name:
                dims.append(dim)
        coords = dict(data.coords)
        coords.pop(time_name, None)
''')])
r('s04', S, [('''        dims = [f'dim_{i}' for i in range(data.ndim)]
        dims[0] = 'time'
''', '''        dims = ['time'] + [f'dim_{i}' for i in range(1, data.ndim)]
''')])
r('s05', S, [('''        lat_name = observed.cf.coordinates['latitude']''', '''        lat_name = observed.cf.coordinates['latitude']''')] if False else [('''    lat_diff = np.diff(observed.cf['latitude'], axis=0)
''', '''    latitude = observed.cf['latitude']
    lat_diff = np.diff(latitude, axis=0)
''')])
r('s06', S, [('''        if axis is None:
            axis = 0
            a = np.ravel(a)
            b = np.ravel(b)
            if weights is not None:
                weights = np.ravel(weights)
''', '''        if axis is None:
            a, b = np.ravel(a), np.ravel(b)
            weights = None if weights is None else np.ravel(weights)
            axis = 0
''')])
r('s07', S, [('''    pcs = solver.pcs(npcs=npcs, pcscaling=pcscaling)
    pcs = pcs.transpose()
''', '''    pcs = solver.pcs(npcs=npcs, pcscaling=pcscaling).T
''')])
r('s08', S, [('''    dims = ['pc', 'time']
    if meta:
        time_name = data.dims[time_dim if is_xr else 0]
        coords = {'time': data.coords[time_name]} if time_name in data.coords else {}
    else:
        coords = {}

    return xr.DataArray(pcs, attrs=attrs, dims=dims, coords=coords)
''', '''    coords = {}
    if meta:
        time_name = data.dims[time_dim if is_xr else 0]
        if time_name in data.coords:
            coords['time'] = data.coords[time_name]

    return xr.DataArray(pcs, coords, ('pc', 'time'), attrs=attrs)
''')])
r('s09', S, [('''    time_dim = int(kwargs.get('time_dim', data.ndim - 1))
    meta = bool(kwargs.get('meta'))

    return eofunc_eofs(data, neofs=neval, time_dim=time_dim, meta=meta)
''', '''    if 'time_dim' in kwargs:
        time_dim = int(kwargs['time_dim'])
    else:
        time_dim = int(data.ndim - 1)

    return eofunc_eofs(data, neval, time_dim, meta=bool(kwargs.get('meta', False)))
''')])
r('s10', S, [('''    if neofs <= 0:
        raise ValueError(
            'ERROR eofunc_eofs: num_eofs must be a positive non-zero integer value.'
        )
''', '''    if not neofs > 0:
        msg = 'ERROR eofunc_eofs: num_eofs must be a positive non-zero integer value.'
        raise ValueError(msg)
''')])

# --- spherical
r('v01', V, [('''    scale_mul = []
    for nvalue in range(max_harm + 1):
        for mvalue in range(nvalue + 1):
            mlist.append(mvalue)
            nlist.append(nvalue)
            if mvalue == 0:
                scale_mul.append(1)
            else:
                scale_mul.append(2)
''', '''    for nvalue in range(max_harm + 1):
        for mvalue in range(nvalue + 1):
            mlist.append(mvalue)
            nlist.append(nvalue)
    scale_mul = [1 if mvalue == 0 else 2 for mvalue in mlist]
''')])
r('v02', V, [('''    results = np.sum(np.multiply(scale_dat, harmonics), axis=sum_ax) * scale_res
    return results
''', '''    weighted = scale_dat * harmonics
    return np.sum(weighted, axis=sum_ax) * scale_res
''')])
r('v03', V, [('''    theta_1d = theta.reshape((theta.shape[0] * theta.shape[1],))
    phi_1d = phi.reshape((phi.shape[0] * phi.shape[1],))
''', '''    def flat(x):
        rows, cols = x.shape[0], x.shape[1]
        return x.reshape((rows * cols,))

    theta_1d, phi_1d = flat(theta), flat(phi)
''')])
r('v04', V, [('''    results = np.sum(np.multiply(harmonics.real, data.real), axis=0) + np.sum(
        np.multiply(harmonics.imag, data.imag), axis=0
    )
    return results.real
''', '''    re = np.sum(harmonics.real * data.real, axis=0)
    im = np.sum(harmonics.imag * data.imag, axis=0)
    return (re + im).real
''')])
r('v05', V, [('''    data_locs_3d[:, 0] = np.sin(phi_1d) * np.sin(theta_1d)
    data_locs_3d[:, 1] = np.sin(phi_1d) * np.cos(theta_1d)
    data_locs_3d[:, 2] = np.cos(phi_1d)
''', '''    sin_phi = np.sin(phi_1d)
    data_locs_3d[:, 2] = np.cos(phi_1d)
    data_locs_3d[:, 1] = np.cos(theta_1d) * sin_phi
    data_locs_3d[:, 0] = np.sin(theta_1d) * sin_phi
''')])

# --- gc_util
r('u01', U, [('''    try:
        return _find_var(ds, standard_name, long_name, possible_names, description)
    except KeyError:
        return None
''', '''    found = None
    try:
        found = _find_var(
            ds,
            standard_name=standard_name,
            long_name=long_name,
            possible_names=possible_names,
            description=description,
        )
    except KeyError:
        pass
    return found
''')])

# --- psi / delta pressure / others in meteorology
r('z01', M, [('''        integrand = da_v_zonal * da_dp_zonal
        da_mpsi = integrand.cumsum(dim='plev')
''', '''        da_mpsi = (da_dp_zonal * da_v_zonal).cumsum('plev')
''')])
r('z02', M, [('''    da_scaling_factor = 2 * np.pi * a * np.cos(lats) / g
    da_mpsi = da_mpsi * da_scaling_factor
''', '''    circumference = 2 * np.pi * a * np.cos(lats)
    da_mpsi = da_mpsi * (circumference / g)
''')])
