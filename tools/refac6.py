"""Hand-made behaviour-preserving rewrites: heavier restructurings of meteorology and climatologies."""
R = []
def r(i, f, e): R.append((i, 'geocat/comp/' + f, e))
M, C, I = 'meteorology.py', 'climatologies.py', 'interpolation.py'

r('x01', M, [('@func _nws_eqn', '''
def _nws_eqn(coeffs, temp, rel_hum):
    t2 = temp**2
    r2 = rel_hum**2
    factors = (temp, rel_hum, temp * rel_hum, t2, r2, t2 * rel_hum, temp * r2, t2 * r2)
    heatindex = coeffs[0]
    for c, f in zip(coeffs[1:], factors):
        heatindex = heatindex + c * f
    return heatindex
''')])
r('x02', M, [('@func saturation_vapor_pressure', '''
def _celsius(temperature):
    return (temperature - 32) * 5 / 9


def _tetens(temp_c):
    return 0.6108 * np.exp((17.27 * temp_c) / (temp_c + 237.3))


def _annotate(out, **attrs):
    for key, value in attrs.items():
        out.attrs[key] = value
    return out


def saturation_vapor_pressure(temperature, tfill=np.nan):
    labelled = type(temperature) is xr.DataArray
    if not labelled:
        temperature = np.asarray(temperature)
    temp_c = _celsius(temperature)
    where = xr.where if labelled else np.where
    svp = where(temp_c > 0, _tetens(temp_c), tfill)
    if not labelled:
        return svp
    return _annotate(
        svp,
        long_name="saturation vapor pressure",
        units="kPa",
        url="https://www.fao.org/docrep/X0490E/x0490e07.htm",
        info="FAO 56; EQN 11; saturation_vapor_pressure",
    )
''')])
r('x03', M, [('''
    es = (t2 + 1 - temperature) * table[it] + (temperature - t2) * table[it + 1]
    es = es * 0.1
''', '''
    frac = temperature - t2
    es = ((1 - frac) * table[it] + frac * table[it + 1]) * 0.1
''')])
BODY = '''
def _relhum_checked(name, formula, temperature, mixing_ratio, pressure):
    in_types = [type(item) for item in (temperature, mixing_ratio, pressure)]
    if len(set(in_types)) != 1:
        raise TypeError(f"{name}: input types are not the same, received {in_types}")
    if not isinstance(temperature, (xr.DataArray, np.ndarray)):
        try:
            temperature, mixing_ratio, pressure = (
                np.asarray(x) for x in (temperature, mixing_ratio, pressure)
            )
        except (ValueError, TypeError) as e:
            raise TypeError(f"{name}: cannot convert input to numpy array, {e}")
    if not temperature.shape == mixing_ratio.shape == pressure.shape:
        raise ValueError(f"{name}: dimensions of inputs are not the same")
    rh = formula(temperature, mixing_ratio, pressure)
    if isinstance(temperature, xr.DataArray):
        rh = xr.DataArray(
            data=rh,
            coords=temperature.coords,
            dims=temperature.dims,
            attrs=temperature.attrs,
        )
    if in_types[0] in (list, float, int) and isinstance(rh, np.ndarray):
        rh = rh.tolist()
    return rh


'''
r('x04', M, [('@func relhum_ice', BODY + '''
def relhum_ice(temperature, mixing_ratio, pressure):
    return _relhum_checked("relhum_ice", _relhum_ice, temperature, mixing_ratio, pressure)
'''), ('@func relhum_water', '''
def relhum_water(temperature, mixing_ratio, pressure):
    return _relhum_checked(
        "relhum_water", _relhum_water, temperature, mixing_ratio, pressure
    )
''')])
r('x05', M, [('''
    delta_pressure[start_level + 1 : end_level] = [
        (a - b) / 2
        for a, b in zip(
            pressure_lev[start_level + 2 : end_level + 1],
            pressure_lev[start_level:end_level],
        )
    ]
''', '''
    upper = pressure_lev[start_level : end_level - 1]
    lower = pressure_lev[start_level + 2 : end_level + 1]
    for k, (a, b) in enumerate(zip(lower, upper)):
        delta_pressure[start_level + 1 + k] = (a - b) / 2
''')])
r('x06', M, [('''
    start_level = min(indices)
    end_level = max(indices)
''', '''
    start_level, end_level = indices.min(), indices.max()
''')])
r('x07', M, [('''
        delta_pressure = [
            _delta_pressure1D(pressure_lev, e, pressure_top)
            for e in surface_pressure_flattened
        ]
        delta_pressure = np.array(delta_pressure).reshape(delta_pressure_shape)
''', '''
        columns = []
        for e in surface_pressure_flattened:
            columns.append(_delta_pressure1D(pressure_lev, e, pressure_top))
        delta_pressure = np.reshape(np.array(columns), delta_pressure_shape)
''')])
r('x08', C, [('''
    if isinstance(start, cftime.datetime):
        time_bounds = xr.date_range(start=start, end=end, freq=freq, calendar=calendar, use_cftime=True)
    elif isinstance(start, str):
        time_bounds = xr.date_range(start=start, end=end, freq=freq, calendar=calendar, use_cftime=True)
    else:
        time_bounds = xr.date_range(start=start, end=end, freq=freq, calendar=calendar)
''', '''
    options = {'freq': freq, 'calendar': calendar}
    if isinstance(start, (cftime.datetime, str)):
        options['use_cftime'] = True
    time_bounds = xr.date_range(start, end, **options)
''')])
r('x09', C, [('''
    time = xr.DataArray(np.vstack((time_bounds[:-1], time_bounds[1:])).T, dims=[time_dim, 'nbd']).mean(dim='nbd', keep_attrs=keep_attrs)
    return dset.assign_coords({time_dim: time})
''', '''
    bounds = np.stack((time_bounds[:-1], time_bounds[1:]), axis=1)
    centers = xr.DataArray(bounds, dims=(time_dim, 'nbd')).mean('nbd', keep_attrs=keep_attrs)
    return dset.assign_coords({time_dim: centers})
''')])
r('x10', C, [('''
    if freq == 'season':
        anom = dset.groupby(f"{time_dim}.season") - clim
        return anom.drop_attrs().assign_attrs(attrs)
    else:
        anom = dset.groupby(dset[time_dim].dt.strftime(format)) - clim.groupby(clim[time_dim].dt.strftime(format)).sum()
        return anom.drop_vars('strftime').drop_attrs().assign_attrs(attrs)
''', '''
    if freq == 'season':
        anom = dset.groupby(time_dim + ".season") - clim
    else:
        label = lambda x: x[time_dim].dt.strftime(format)
        reference = clim.groupby(label(clim)).sum()
        anom = (dset.groupby(label(dset)) - reference).drop_vars("strftime")
    return anom.drop_attrs().assign_attrs(attrs)
''')])
r('x11', C, [('''
        month_length = dset[time_dim].dt.days_in_month.resample({time_dim: frequency})
        weights = month_length.map(lambda group: group / group.sum())
        dset_weighted = dset * weights
        dset = (dset_weighted).resample({time_dim: frequency}).sum()
''', '''
        def normalise(days):
            total = days.sum()
            return days / total

        days = dset[time_dim].dt.days_in_month
        weights = days.resample(**{time_dim: frequency}).map(normalise)
        dset = (weights * dset).resample(**{time_dim: frequency}).sum()
''')] if False else [('''
        month_length = dset[time_dim].dt.days_in_month.resample({time_dim: frequency})
        weights = month_length.map(lambda group: group / group.sum())
        dset_weighted = dset * weights
        dset = (dset_weighted).resample({time_dim: frequency}).sum()
''', '''
        def normalise(days):
            total = days.sum()
            return days / total

        days = dset[time_dim].dt.days_in_month
        weights = days.resample(**{time_dim: frequency}).map(normalise)
        dset = (dset * weights).resample(**{time_dim: frequency}).sum()
''')])
r('x12', C, [('''
        seasonal_climates = []
        for season in seasons:
            # Grab the months for each season
            months = seasons_dict[season]

            # Filter data to only contain the months of interest
            dset_filter = dset.sel({time_dim: dset[time_dim].dt.month.isin(months)})

            # Calculate monthly average before calculating seasonal climatologies
            dset_filter = (
                dset_filter.resample({time_dim: frequency})
                .mean(keep_attrs=keep_attrs)
                .dropna(time_dim)
            )

            # Compute the weights for the months in each season so that the
            # seasonal averages account for months being of different lengths
            month_length = dset_filter[time_dim].dt.days_in_month
            weights = month_length / month_length.sum()
            climatology = (dset_filter * weights).sum(dim=time_dim)

            seasonal_climates.append(climatology)
        dset = xr.concat(seasonal_climates, dim='season')
''', '''
        def season_mean(months):
            chosen = dset[time_dim].dt.month.isin(months)
            monthly = dset.sel({time_dim: chosen}).resample({time_dim: frequency})
            monthly = monthly.mean(keep_attrs=keep_attrs).dropna(time_dim)
            days = monthly[time_dim].dt.days_in_month
            return (monthly * (days / days.sum())).sum(time_dim)

        dset = xr.concat([season_mean(seasons_dict[s]) for s in seasons], 'season')
''')])
r('x13', C, [('''
    if season == 'DJF':  # For this season, the last "mean" will be the value for Dec
        data_filter = data_filter.isel({time_coord_name: slice(None, -1)})
    elif season == 'NDJ':
        data_filter = data_filter.isel({time_coord_name: slice(1, None)})
''', '''
    trim = {'DJF': slice(None, -1), 'NDJ': slice(1, None)}
    if season in trim:
        data_filter = data_filter.isel({time_coord_name: trim[season]})
''')])
r('x14', C, [('''
    if isinstance(means.indexes[time_coord_name], xr.coding.cftimeindex.CFTimeIndex):
        means[time_coord_name] = means.indexes[time_coord_name] + xr.coding.cftime_offsets.to_offset('MS')
    elif isinstance(means.indexes[time_coord_name], pd.DatetimeIndex):
        means[time_coord_name] = means.indexes[time_coord_name] + pd.tseries.frequencies.to_offset('MS')
    else:
''', '''
    index = means.indexes[time_coord_name]
    if isinstance(index, xr.CFTimeIndex):
        means[time_coord_name] = index + xr.coding.cftime_offsets.to_offset("MS")
    elif isinstance(index, pd.DatetimeIndex):
        means[time_coord_name] = index + pd.tseries.frequencies.to_offset("MS")
    else:
''')] if False else [('''
    return means.sel({time_coord_name: means[time_coord_name].dt.month == months[1]})
''', '''
    middle = months[1]
    keep = means[time_coord_name].dt.month == middle
    return means.sel({time_coord_name: keep})
''')])
r('x15', C, [('@func _infer_calendar_name', '''
def _infer_calendar_name(dates):
    if not np.issubdtype(dates.dtype, np.datetime64):
        first = np.asarray(dates).ravel()[0]
        return first.calendar
    return "proleptic_gregorian"
''')])
r('x16', C, [('''
    format, frequency = freq_dict[freq]
    if freq == 'year':
        clim = calendar_average(dset, freq, time_dim, keep_attrs)
    else:
        clim = climatology_average(dset, freq=freq, time_dim=time_dim, keep_attrs=keep_attrs)
''', '''
    format = freq_dict[freq][0]
    average = calendar_average if freq == 'year' else climatology_average
    clim = average(dset, freq, time_dim=time_dim, keep_attrs=keep_attrs)
''')])
r('x17', M, [('''
    if (abs(lat) > 55).all() and (abs(lat) <= 66).all():
''', '''
    alat = abs(lat)
    if np.logical_and(alat > 55, alat <= 66).all():
''')])
