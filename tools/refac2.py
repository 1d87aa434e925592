"""Behaviour-preserving rewrites made by hand: (id, file, [(old, new), ...])."""
M, S, F, G, I, C, U, P = ('geocat/comp/%s.py' % m for m in ('meteorology', 'stats', 'fourier_filters', 'gradient', 'interpolation', 'climatologies', 'gc_util', 'spherical'))
R = []


def r(i, f, e):
    R.append((i, f, e))


r('m01', M, [('''    if not all(np.shape(x) == np.shape(inputs[0]) for x in inputs):
        raise ValueError("dewtemp: dimensions of inputs are not the same")
''', '''    shapes = {np.shape(x) for x in inputs}
    if len(shapes) > 1:
        raise ValueError("dewtemp: dimensions of inputs are not the same")
'''), ('''        if any(x != xr.DataArray for x in in_types):
            raise TypeError("relhum: if using xarray, all inputs must be xarray")
''', '''        for x in in_types:
            if x is not xr.DataArray:
                raise TypeError("relhum: if using xarray, all inputs must be xarray")
'''), ('''        dew_pnt_temp.attrs['long_name'] = 'dew point temperature'
        dew_pnt_temp.attrs['units'] = 'Kelvin'
''', '''        dew_pnt_temp.attrs.update(long_name='dew point temperature', units='Kelvin')
''')])
r('m02', M, [('''    heatindex = (
        coeffs[0]
        + coeffs[1] * temp
        + coeffs[2] * rel_hum
        + coeffs[3] * temp * rel_hum
        + coeffs[4] * temp**2
        + coeffs[5] * rel_hum**2
        + coeffs[6] * temp**2 * rel_hum
        + coeffs[7] * temp * rel_hum**2
        + coeffs[8] * temp**2 * rel_hum**2
    )

    return heatindex
''', '''    c0, ct, cr, ctr, ct2, cr2, ct2r, ctr2, ct2r2 = coeffs
    t2 = temp**2
    r2 = rel_hum**2
    constant = c0 + ct * temp + ct2 * t2
    linear = cr + ctr * temp + ct2r * t2
    quadratic = cr2 + ctr2 * temp + ct2r2 * t2
    return constant + linear * rel_hum + quadratic * r2
''')])
r('m03', M, [('''    if alternate_coeffs:
        coeffs = [
''', '''    crit = 70 if alternate_coeffs else 79
    if alternate_coeffs:
        coeffs = [
'''), ('''        crit = 70

''', '''
'''), ('''    crit = 79

''', '''
'''), ('''        np.logical_and(
            relative_humidity <= 13,
            np.logical_and(temperature >= 80, temperature <= 112),
        ),
''', '''        (relative_humidity <= 13) & (80 <= temperature) & (temperature <= 112),
'''), ('''    heatindex = (steadman + temperature) / 2
''', '''    heatindex = 0.5 * (temperature + steadman)
'''), ('''        heatindex.attrs['long_name'] = "heat index: NWS"
        heatindex.attrs['units'] = "F"
        heatindex.attrs['www'] = (
            "https://www.wpc.ncep.noaa.gov/html/heatindex_equation.shtml"
        )
        heatindex.attrs['info'] = "appropriate for shady locations with no wind"
        heatindex.attrs['tag'] = "heat_index: (Steadman+t)*0.5 and Rothfusz"
''', '''        metadata = {
            'long_name': "heat index: NWS",
            'units': "F",
            'www': "https://www.wpc.ncep.noaa.gov/html/heatindex_equation.shtml",
            'info': "appropriate for shady locations with no wind",
            'tag': "heat_index: (Steadman+t)*0.5 and Rothfusz",
        }
        for key, value in metadata.items():
            heatindex.attrs[key] = value
''')])
r('m04', M, [('''    if len(set(in_types)) != 1:
        raise TypeError(
            f"heat_index: input types are not the same, received {in_types}"
        )

    # if inputs not xarray or numpy (float, int, list), elevate to np
    if not isinstance(temperature, xr.DataArray) and not isinstance(
        temperature, np.ndarray
    ):
        try:
''', '''    if type(temperature) is not type(relative_humidity):
        raise TypeError(
            f"heat_index: input types are not the same, received {in_types}"
        )

    # if inputs not xarray or numpy (float, int, list), elevate to np
    if not isinstance(temperature, (xr.DataArray, np.ndarray)):
        try:
'''), ('''    if not temperature.shape == relative_humidity.shape:
''', '''    if temperature.shape != relative_humidity.shape:
'''), ('''    if relative_humidity.min() < 0 or relative_humidity.max() > 100:
        raise''', '''    lowest, highest = relative_humidity.min(), relative_humidity.max()
    if lowest < 0 or highest > 100:
        raise'''), ('''    if relative_humidity.max() <= 1:
        warnings''', '''    if highest <= 1:
        warnings''')])
r('m05', M, [('''    it = xr.where(np.isnan(temperature), 0, temperature - mintemp).astype(int)
    t2 = mintemp + it

    es = (t2 + 1 - temperature) * table[it] + (temperature - t2) * table[it + 1]
    es = es * 0.1

    relative_humidity = (mixing_ratio * (pressure - 0.378 * es) / (0.622 * es)) * 100
''', '''    it = xr.where(np.isnan(temperature), 0, temperature - mintemp).astype(int)
    frac = temperature - (mintemp + it)

    es = 0.1 * ((1 - frac) * table[it] + frac * table[it + 1])

    relative_humidity = 100 * mixing_ratio * (pressure - 0.378 * es) / (0.622 * es)
'''), ('''    if isinstance(relative_humidity, xr.DataArray):
        # set xarray attributes
        relative_humidity.attrs['long_name'] = "relative humidity"
''', '''    if type(relative_humidity) is xr.DataArray:
        # set xarray attributes
        relative_humidity.attrs['long_name'] = "relative humidity"
''')])
r('m06', M, [('''def _relhum_ice(
''', '''def _ratio(est, w, p):
    ep, onemep = 0.622, 0.378
    return 100 * (w / ((ep * est) / ((p * 0.01) - onemep * est)))


def _relhum_ice(
'''), ('''    est = es0 * np.exp((a * (t - t0)) / ((t - t0) + b))

    # Calculate Specific Humidity
    qst = (ep * est) / ((p * 0.01) - onemep * est)

    # Calculate Relative Humidity
    rh = 100 * (w / qst)

    return rh
''', '''    celsius = t - t0
    return _ratio(es0 * np.exp(a * celsius / (celsius + b)), w, p)
'''), ('''    est = es0 * np.exp((a * (t - t0)) / (t - b))

    # Calculate Specific Humidity
    qst = (ep * est) / ((p * 0.01) - onemep * est)

    # Calculate Relative Humidity
    rh = 100 * (w / qst)

    return rh
''', '''    est = es0 * np.exp((a * (t - t0)) / (t - b))

    return _ratio(est, w, p)
''')])
# the two relhum_ice/relhum_water functions share one implementation
r('m07', M, [('''    inputs = [temperature, mixing_ratio, pressure]

    # get input types
    in_types = [type(item) for item in inputs]

    # ensure all same input type
    if len(set(in_types)) != 1:
        raise TypeError(
            f"relhum_water: input types are not the same, received {in_types}"
        )

    # if inputs not xarray or numpy (float, int, list), elevate to np
    if not isinstance(temperature, xr.DataArray) and not isinstance(
        temperature, np.ndarray
    ):
        try:
            temperature = np.asarray(temperature)
            mixing_ratio = np.asarray(mixing_ratio)
            pressure = np.asarray(pressure)
        except (ValueError, TypeError) as e:
            raise TypeError(f"relhum_water: cannot convert input to numpy array, {e}")

    # If xarray input, pull data and store metadata
    x_out = False
    if isinstance(temperature, xr.DataArray):
        x_out = True
        save_dims = temperature.dims
        save_coords = temperature.coords
        save_attrs = temperature.attrs

    # ensure all inputs same size
    if temperature.shape != mixing_ratio.shape or temperature.shape != pressure.shape:
        raise ValueError("relhum_water: dimensions of inputs are not the same")

    relative_humidity = _relhum_water(temperature, mixing_ratio, pressure)

    # output as xarray if input as xarray
    if x_out:
        relative_humidity = xr.DataArray(
            data=relative_humidity, coords=save_coords, dims=save_dims, attrs=save_attrs
        )

    # if elevated to np array, return to original type
    if in_types[0] in {list, float, int} and isinstance(relative_humidity, np.ndarray):
        relative_humidity = relative_humidity.tolist()

    return relative_humidity


def max_daylight(
''', '''    return _relhum_checked(
        "relhum_water", _relhum_water, temperature, mixing_ratio, pressure
    )


def _relhum_checked(name, formula, temperature, mixing_ratio, pressure):
    in_types = [type(item) for item in (temperature, mixing_ratio, pressure)]

    if len(set(in_types)) != 1:
        raise TypeError(f"{name}: input types are not the same, received {in_types}")

    if isinstance(temperature, xr.DataArray):
        _same_shape(name, temperature, mixing_ratio, pressure)
        return xr.DataArray(
            formula(temperature, mixing_ratio, pressure),
            dims=temperature.dims,
            coords=temperature.coords,
            attrs=temperature.attrs,
        )

    if not isinstance(temperature, np.ndarray):
        try:
            temperature, mixing_ratio, pressure = (
                np.asarray(x) for x in (temperature, mixing_ratio, pressure)
            )
        except (ValueError, TypeError) as e:
            raise TypeError(f"{name}: cannot convert input to numpy array, {e}")

    _same_shape(name, temperature, mixing_ratio, pressure)
    result = formula(temperature, mixing_ratio, pressure)
    if in_types[0] in (list, float, int) and isinstance(result, np.ndarray):
        return result.tolist()
    return result


def _same_shape(name, first, *others):
    if any(x.shape != first.shape for x in others):
        raise ValueError(f"{name}: dimensions of inputs are not the same")


def max_daylight(
''')])
r('m08', M, [('''    x_out = False
    if isinstance(jday, xr.DataArray):
        x_out = True

    # convert inputs to numpy arrays for function call if necessary
    if not xr.core.utils.is_duck_array(jday):
        jday = np.asarray(jday, dtype='float32')
    if not xr.core.utils.is_duck_array(lat):
        lat = np.asarray(lat, dtype='float32')
''', '''    x_out = isinstance(jday, xr.DataArray)

    # convert inputs to numpy arrays for function call if necessary
    jday, lat = (
        v if xr.core.utils.is_duck_array(v) else np.asarray(v, dtype='float32')
        for v in (jday, lat)
    )
'''), ('''    if (abs(lat) > 55).all() and (abs(lat) <= 66).all():
''', '''    abslat = np.abs(lat)
    if ((abslat > 55) & (abslat <= 66)).all():
'''), ('''    elif (abs(lat) > 66).all():
''', '''    elif np.all(abslat > 66):
'''), ('''    ws = np.arccos(np.outer(-np.tan(latrad), np.tan(sdec)))

    # Equation 34 from FAO56
    dlm = np.transpose(con * ws)
''', '''    ws = np.arccos(-np.outer(np.tan(sdec), np.tan(latrad)))

    # Equation 34 from FAO56
    dlm = con * ws
''')])
r('m09', M, [('''    if in_type is not xr.DataArray:
        psy_const = con * np.asarray(pressure)

    # else if input is xarray, add relevant metadata for xarray output
    else:
        psy_const = con * pressure
        psy_const.attrs['long_name'] = "psychrometric constant"
''', '''    if in_type is not xr.DataArray:
        return np.asarray(pressure) * con

    # else if input is xarray, add relevant metadata for xarray output
    else:
        psy_const = pressure * con
        psy_const.attrs['long_name'] = "psychrometric constant"
''')])
r('m10', M, [('''    in_type = type(temperature)

    if in_type is xr.DataArray:
        # convert temperature to Celsius
        temp_c = (temperature - 32) * 5 / 9

        # calculate svp
        svp = xr.where(
            temp_c > 0, 0.6108 * np.exp((17.27 * temp_c) / (temp_c + 237.3)), tfill
        )
''', '''    is_xarray = type(temperature) is xr.DataArray
    if not is_xarray:
        temperature = np.asarray(temperature)
    temp_c = (temperature - 32) * (5 / 9)
    curve = 0.6108 * np.exp(17.27 * temp_c / (temp_c + 237.3))
    choose = xr.where if is_xarray else np.where
    svp = choose(temp_c > 0, curve, tfill)

    if is_xarray:
'''), ('''    else:
        temperature = np.asarray(temperature)

        temp_c = (temperature - 32) * 5 / 9
        svp = np.where(
            temp_c > 0, 0.6108 * np.exp((17.27 * temp_c) / (temp_c + 237.3)), tfill
        )

    return svp
''', '''    return svp
''')])
r('m11', M, [('''        svp_slope = xr.where(
            temp_c > 0,
            4096
            * (
                0.6108
                * np.exp((17.27 * temp_c) / (temp_c + 237.3))
                / (temp_c + 237.3) ** 2
            ),
            tfill,
        )
''', '''        svp_slope = xr.where(
            temp_c > 0,
            4096 * saturation_vapor_pressure(temperature) / (temp_c + 237.3) ** 2,
            tfill,
        )
'''), ('''        svp_slope = np.where(
            temp_c > 0,
            4096
            * (
                0.6108
                * np.exp((17.27 * temp_c) / (temp_c + 237.3))
                / (temp_c + 237.3) ** 2
            ),
            tfill,
        )
''', '''        shifted = temp_c + 237.3
        svp = 0.6108 * np.exp(17.27 * temp_c / shifted)
        svp_slope = np.where(temp_c > 0, 4096 * svp / (shifted * shifted), tfill)
''')])
r('m12', M, [('''    midpoints = np.array((pressure_lev + np.roll(pressure_lev, shift=1)) / 2.0)
    midpoints[0] = 0.0
    [indices] = np.nonzero(midpoints < surface_pressure)

    start_level = min(indices)
    end_level = max(indices)
''', '''    midpoints = 0.5 * np.array(np.roll(pressure_lev, 1) + pressure_lev)
    midpoints[0] = 0
    indices = np.nonzero(midpoints < surface_pressure)[0]

    start_level, end_level = indices.min(), indices.max()
'''), ('''    delta_pressure[start_level + 1 : end_level] = [
        (a - b) / 2
        for a, b in zip(
            pressure_lev[start_level + 2 : end_level + 1],
            pressure_lev[start_level:end_level],
        )
    ]  # delta p_k = p_{k+1/2} - p_{k-1/2}
''', '''    for k in range(start_level + 1, end_level):
        delta_pressure[k] = (pressure_lev[k + 1] - pressure_lev[k - 1]) / 2
''')])
r('m13', M, [('''    if np.isscalar(surface_pressure):  # scalar case
        delta_pressure = _delta_pressure1D(pressure_lev, surface_pressure, pressure_top)
    else:  # multi-dimensional cases
        shape = surface_pressure.shape
        delta_pressure_shape = shape + (
            len(pressure_lev),
        )  # preserve shape for reshaping

        surface_pressure_flattened = np.ravel(
            surface_pressure
        )  # flatten to avoid nested for loops
        delta_pressure = [
            _delta_pressure1D(pressure_lev, e, pressure_top)
            for e in surface_pressure_flattened
        ]

        delta_pressure = np.array(delta_pressure).reshape(delta_pressure_shape)
''', '''    if not np.isscalar(surface_pressure):
        columns = []
        for e in np.ravel(surface_pressure):
            columns.append(_delta_pressure1D(pressure_lev, e, pressure_top))
        delta_pressure = np.reshape(
            np.array(columns), (*surface_pressure.shape, len(pressure_lev))
        )
    else:
        delta_pressure = _delta_pressure1D(pressure_lev, surface_pressure, pressure_top)
'''), ('''    if pressure_top is None:
        pressure_top = pressure_lev.min()
    else:
        if pressure_top > pressure_lev.min():
            raise ValueError("pressure_top must be <= min(pressure_lev)")
''', '''    lowest = pressure_lev.min()
    if pressure_top is None:
        pressure_top = lowest
    elif lowest < pressure_top:
        raise ValueError("pressure_top must be <= min(pressure_lev)")
''')])
r('m14', M, [('''        da_coords = dict(surface_pressure.coords)
        da_attrs = dict(surface_pressure.attrs)
''', '''        da_coords = {name: c for name, c in surface_pressure.coords.items()}
        da_attrs = surface_pressure.attrs.copy()
'''), ('''        da_attrs.update({"long name": "pressure layer thickness"})
        delta_pressure = xr.DataArray(
            delta_pressure,
            coords=da_coords,
            dims=da_dims,
            attrs=da_attrs,
            name="delta pressure",
        )
''', '''        return xr.DataArray(
            delta_pressure,
            coords=da_coords,
            dims=da_dims,
            attrs={**da_attrs, "long name": "pressure layer thickness"},
            name="delta pressure",
        )
''')])
