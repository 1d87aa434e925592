"""Behaviour-preserving rewrites made by hand: climatologies, gradient, fourier_filters, stats."""
from refac2 import M, S, F, G, I, C, U, P
R = []


def r(i, f, e):
    R.append((i, f, e))


r('c01', C, [('''    if isinstance(start, cftime.datetime):
        time_bounds = xr.date_range(
            start=start, end=end, freq=freq, calendar=calendar, use_cftime=True
        )
    elif isinstance(start, str):
        time_bounds = xr.date_range(
            start=start, end=end, freq=freq, calendar=calendar, use_cftime=True
        )
    else:
        time_bounds = xr.date_range(start=start, end=end, freq=freq, calendar=calendar)
    time_bounds = time_bounds.append(time_bounds[-1:].shift(1, freq=freq))
    time = xr.DataArray(
        np.vstack((time_bounds[:-1], time_bounds[1:])).T, dims=[time_dim, 'nbd']
    ).mean(dim='nbd', keep_attrs=keep_attrs)
    return dset.assign_coords({time_dim: time})
''', '''    options = dict(start=start, end=end, freq=freq, calendar=calendar)
    if isinstance(start, (cftime.datetime, str)):
        options['use_cftime'] = True
    edges = xr.date_range(**options)
    after = edges[-1:].shift(1, freq=freq)
    edges = edges.append(after)
    bounds = np.vstack((edges[:-1], edges[1:])).T
    centers = xr.DataArray(bounds, dims=(time_dim, 'nbd')).mean(
        'nbd', keep_attrs=keep_attrs
    )
    return dset.assign_coords(**{time_dim: centers})
''')])
r('c02', C, [('''    if time_coord_name:
        time = dset[time_coord_name]
    else:
        time = dset.cf["time"]
        time_coord_name = time.name
''', '''    if not time_coord_name:
        time_coord_name = dset.cf["time"].name
    time = dset[time_coord_name]
'''), ('''    if np.issubdtype(dates.dtype, np.datetime64):
        return "proleptic_gregorian"
    else:
        return np.asarray(dates).ravel()[0].calendar
''', '''    if not np.issubdtype(dates.dtype, np.datetime64):
        first = np.asarray(dates).flatten()[0]
        return first.calendar
    return "proleptic_gregorian"
''')])
r('c03', C, [('''    attrs = {}
    if keep_attrs or keep_attrs is None:
        attrs = dset.attrs

    freq_dict = {
        'day': ('%m-%d', 'D'),
        'month': ('%m', 'MS'),
        'season': (None, 'QS-DEC'),
        'year': ('%Y', 'Y'),
    }

    if freq not in freq_dict:
        raise ValueError(
            f"Received bad period {freq!r}. Expected one of {list(freq_dict.keys())!r}"
        )
    format, frequency = freq_dict[freq]

    if freq == 'year':
        clim = calendar_average(dset, freq, time_dim, keep_attrs)
    else:
        clim = climatology_average(
            dset, freq=freq, time_dim=time_dim, keep_attrs=keep_attrs
        )
    if freq == 'season':
        anom = dset.groupby(f"{time_dim}.season") - clim
        return anom.drop_attrs().assign_attrs(attrs)
    else:
        anom = (
            dset.groupby(dset[time_dim].dt.strftime(format))
            - clim.groupby(clim[time_dim].dt.strftime(format)).sum()
        )
        return anom.drop_vars('strftime').drop_attrs().assign_attrs(attrs)
''', '''    attrs = dset.attrs if (keep_attrs is None or keep_attrs) else {}

    formats = {'day': '%m-%d', 'month': '%m', 'season': None, 'year': '%Y'}
    if freq not in formats:
        raise ValueError(
            f"Received bad period {freq!r}. Expected one of {list(formats.keys())!r}"
        )

    def labels(ds):
        return ds[time_dim].dt.strftime(formats[freq])

    if freq == 'season':
        clim = climatology_average(
            dset, 'season', time_dim=time_dim, keep_attrs=keep_attrs
        )
        anom = dset.groupby(time_dim + ".season") - clim
    else:
        if freq == 'year':
            clim = calendar_average(
                dset, 'year', time_dim=time_dim, keep_attrs=keep_attrs
            )
        else:
            clim = climatology_average(
                dset, freq, time_dim=time_dim, keep_attrs=keep_attrs
            )
        grouped = clim.groupby(labels(clim)).sum()
        anom = (dset.groupby(labels(dset)) - grouped).drop_vars('strftime')
    return anom.drop_attrs().assign_attrs(attrs)
''')])
r('c04', C, [('''    seasons_dict = {
        "DJF": ([12, 1, 2], 'QS-DEC'),
        "JFM": ([1, 2, 3], 'QS-JAN'),
        "FMA": ([2, 3, 4], 'QS-FEB'),
        "MAM": ([3, 4, 5], 'QS-MAR'),
        "AMJ": ([4, 5, 6], 'QS-APR'),
        "MJJ": ([5, 6, 7], 'QS-MAY'),
        "JJA": ([6, 7, 8], 'QS-JUN'),
        "JAS": ([7, 8, 9], 'QS-JUL'),
        "ASO": ([8, 9, 10], 'QS-AUG'),
        "SON": ([9, 10, 11], 'QS-SEP'),
        "OND": ([10, 11, 12], 'QS-OCT'),
        "NDJ": ([11, 12, 1], 'QS-NOV'),
    }
''', '''    first_month = {
        "DJF": (12, 'DEC'),
        "JFM": (1, 'JAN'),
        "FMA": (2, 'FEB'),
        "MAM": (3, 'MAR'),
        "AMJ": (4, 'APR'),
        "MJJ": (5, 'MAY'),
        "JJA": (6, 'JUN'),
        "JAS": (7, 'JUL'),
        "ASO": (8, 'AUG'),
        "SON": (9, 'SEP'),
        "OND": (10, 'OCT'),
        "NDJ": (11, 'NOV'),
    }
    seasons_dict = {
        name: ([(m - 1 + k) % 12 + 1 for k in range(3)], f'QS-{label}')
        for name, (m, label) in first_month.items()
    }
'''), ('''    data_filter = dset.sel(
        {time_coord_name: dset[time_coord_name].dt.month.isin(months)}
    )

    if (
        season == 'DJF'
    ):  # For this season, the last "mean" will be the value for Dec so we drop the last month
        data_filter = data_filter.isel({time_coord_name: slice(None, -1)})
    elif (
        season == 'NDJ'
    ):  # For this season, the first "mean" will be the value for Jan so we drop the first month
        data_filter = data_filter.isel({time_coord_name: slice(1, None)})
''', '''    in_season = dset[time_coord_name].dt.month.isin(months)
    data_filter = dset.sel({time_coord_name: in_season})

    trim = {'DJF': slice(None, -1), 'NDJ': slice(1, None)}
    if season in trim:
        data_filter = data_filter.isel({time_coord_name: trim[season]})
''')])
r('c05', C, [('''    if isinstance(means.indexes[time_coord_name], xr.coding.cftimeindex.CFTimeIndex):
        means[time_coord_name] = means.indexes[
            time_coord_name
        ] + xr.coding.cftime_offsets.to_offset("MS")
    elif isinstance(means.indexes[time_coord_name], pd.DatetimeIndex):
        means[time_coord_name] = means.indexes[
            time_coord_name
        ] + pd.tseries.frequencies.to_offset("MS")
    else:
        raise ValueError(
            f"unsupported array type - {type(means.indexes[time_coord_name])}. Valid types include: (xr.coding.cftimeindex.CFTimeIndex, pandas.core.indexes.datetimes.DatetimeIndex)"
        )

    # The line above tries to take the mean for all quarters even if there is not data for some of them
    # Therefore, we must filter out the NaNs
    return means.sel({time_coord_name: means[time_coord_name].dt.month == months[1]})
''', '''    index = means.indexes[time_coord_name]
    if isinstance(index, xr.coding.cftimeindex.CFTimeIndex):
        offset = xr.coding.cftime_offsets.to_offset("MS")
    elif isinstance(index, pd.DatetimeIndex):
        offset = pd.tseries.frequencies.to_offset("MS")
    else:
        raise ValueError(
            f"unsupported array type - {type(index)}. Valid types include: (xr.coding.cftimeindex.CFTimeIndex, pandas.core.indexes.datetimes.DatetimeIndex)"
        )
    means[time_coord_name] = index + offset

    middle = months[1]
    keep = means[time_coord_name].dt.month == middle
    return means.sel({time_coord_name: keep})
''')])
r('c06', C, [('''    key = 'month' if freq in {'season', 'year'} else freq

    format, frequency = freq_dict[key]

    # If time_dim is None, infer time dimension name. Confirm dset[time_dim] contain datetimes
    time_dim = _get_time_coordinate_info(dset, time_dim)

    # Check if data is uniformly spaced
    if xr.infer_freq(dset[time_dim]) is None:
        if not (dset[time_dim].resample({time_dim: 'MS'}).count() == 1).all():
            raise ValueError(
                f"Data needs to be uniformly spaced in the {time_dim!r} dimension."
            )

    # Retrieve calendar name
    calendar = _infer_calendar_name(dset[time_dim])
''', '''    by_month = freq in ('season', 'year')
    frequency = freq_dict['month' if by_month else freq][1]

    # If time_dim is None, infer time dimension name. Confirm dset[time_dim] contain datetimes
    time_dim = _get_time_coordinate_info(dset, time_dim)

    # Check if data is uniformly spaced
    time = dset[time_dim]
    if xr.infer_freq(time) is None:
        per_month = time.resample({time_dim: 'MS'}).count()
        if (per_month != 1).any():
            raise ValueError(
                f"Data needs to be uniformly spaced in the {time_dim!r} dimension."
            )

    # Retrieve calendar name
    calendar = _infer_calendar_name(time)
'''), ('''    if freq in ['season', 'year']:
        attrs = {}
        if keep_attrs or keep_attrs is None:
            attrs = dset.attrs

        key = freq
        format, frequency = freq_dict[key]
        # Compute''', '''    if by_month:
        attrs = dset.attrs if keep_attrs or keep_attrs is None else {}

        frequency = freq_dict[freq][1]
        # Compute'''), ('''        month_length = dset[time_dim].dt.days_in_month.resample({time_dim: frequency})
        weights = month_length.map(lambda group: group / group.sum())

        dset_weighted = dset * weights
        dset = (dset_weighted).resample({time_dim: frequency}).sum()
''', '''        def normalize(days):
            return days / days.sum()

        days = dset[time_dim].dt.days_in_month
        weights = days.resample({time_dim: frequency}).map(normalize)
        dset = (weights * dset).resample({time_dim: frequency}).sum()
'''), ('''    dset = _calculate_center_of_time_bounds(
        dset,
        time_dim,
        frequency,
        calendar,
        start=dset[time_dim].values[0],
        end=dset[time_dim].values[-1],
        keep_attrs=keep_attrs,
    )
    if freq in ['season', 'year']:
        return dset.assign_attrs(attrs)
    else:
        return dset
''', '''    stamps = dset[time_dim].values
    dset = _calculate_center_of_time_bounds(
        dset, time_dim, frequency, calendar, stamps[0], stamps[-1], keep_attrs
    )
    return dset.assign_attrs(attrs) if by_month else dset
''')])
r('c07', C, [('''    attrs = {}
    if keep_attrs in {True, None}:
        attrs = dset.attrs

    if freq == 'season':
        seasons = ['DJF', 'JJA', 'MAM', 'SON']
        if custom_seasons:
            seasons = custom_seasons
            if isinstance(seasons, str):
                seasons = [seasons]

            invalid_seasons = [s for s in seasons if s not in seasons_dict]
            if invalid_seasons:
                raise''', '''    if freq == 'season':
        attrs = dset.attrs if keep_attrs in (True, None) else {}
        seasons = custom_seasons or ['DJF', 'JJA', 'MAM', 'SON']
        if custom_seasons:
            seasons = [seasons] if isinstance(seasons, str) else seasons

            invalid_seasons = list(filter(lambda s: s not in seasons_dict, seasons))
            if len(invalid_seasons) > 0:
                raise'''), ('''        seasonal_climates = []
        for season in seasons:
            # Grab the months for each season
            months = seasons_dict[season]

            # Filter data to only contain the months of interest
            dset_filter = dset.sel({time_dim: dset[time_dim].dt.month.isin(months)})

            # Calculate monthly average before calculating seasonal climatologies
            dset_filter = (
                dset_filter.resample({time_dim: frequency})
                .mean(keep_attrs=keep_attrs)
                .dropna(time_dim)
            )

            # Compute the weights for the months in each season so that the
            # seasonal averages account for months being of different lengths
            month_length = dset_filter[time_dim].dt.days_in_month
            weights = month_length / month_length.sum()
            climatology = (dset_filter * weights).sum(dim=time_dim)

            seasonal_climates.append(climatology)
        dset = xr.concat(seasonal_climates, dim='season')
        dset.coords['season'] = np.array(seasons).astype(object)
        return dset.assign_attrs(attrs)
''', '''        def one(season):
            chosen = dset[time_dim].dt.month.isin(seasons_dict[season])
            monthly = dset.sel({time_dim: chosen}).resample({time_dim: frequency})
            monthly = monthly.mean(keep_attrs=keep_attrs).dropna(time_dim)
            days = monthly[time_dim].dt.days_in_month
            return (monthly * (days / days.sum())).sum(time_dim)

        result = xr.concat([one(season) for season in seasons], 'season')
        result = result.assign_coords(season=np.array(seasons).astype(object))
        return result.assign_attrs(attrs)
'''), ('''        median_yr = np.median(dset[time_dim].dt.year.values)
''', '''        years = dset[time_dim].dt.year
        median_yr = np.median(years.values)
'''), ('''        start_time = dset[time_dim].values[0]
        end_time = dset[time_dim].values[-1]
        dset = _calculate''', '''        labels = dset[time_dim].values
        start_time, end_time = labels[0], labels[-1]
        dset = _calculate''')])
r('c08', C, [('''_FREQUENCIES = {"day", "month", "year", "season"}
''', '''_FREQUENCIES = {"day", "month", "year", "season"}

_AVERAGING = {
    'hour': ('%m-%d %H', 'h'),
    'day': ('%m-%d', 'D'),
    'month': ('%m', 'MS'),
    'season': (None, 'QS-DEC'),
    'year': (None, 'YS'),
}


def _check_period(freq, allowed):
    if freq in allowed:
        return
    raise ValueError(
        "Received bad period {!r}. Expected one of {!r}".format(freq, list(allowed))
    )
'''), ('''    freq_dict = {
        'hour': ('%m-%d %H', 'h'),
        'day': ('%m-%d', 'D'),
        'month': ('%m', 'MS'),
        'season': (None, 'QS-DEC'),
        'year': (None, 'YS'),
    }

    if freq not in freq_dict:
        raise ValueError(
            f"Received bad period {freq!r}. Expected one of {list(freq_dict.keys())!r}"
        )
''', '''    freq_dict = _AVERAGING
    _check_period(freq, freq_dict)
'''), ('''    freq_dict = {
        'hour': ('%m-%d %H', 'h'),
        'day': ('%m-%d', 'D'),
        'month': ('%m', 'MS'),
        'season': (None, 'QS-DEC'),
    }

    seasons_dict''', '''    freq_dict = {k: v for k, v in _AVERAGING.items() if k != 'year'}

    seasons_dict'''), ('''        "NDJ": [11, 12, 1],
    }

    if freq not in freq_dict:
        raise ValueError(
            f"Received bad period {freq!r}. Expected one of {list(freq_dict.keys())!r}"
        )

    if custom_seasons and freq''', '''        "NDJ": [11, 12, 1],
    }

    _check_period(freq, freq_dict)

    if custom_seasons and freq''')])
