"""Reference: climatologies on a datetime axis."""
import warnings
import cf_xarray
import cftime
import numpy as np
import pandas as pd
import xarray as xr

SEASONS = {'DJF': (12, 1, 2), 'JFM': (1, 2, 3), 'FMA': (2, 3, 4), 'MAM': (3, 4, 5), 'AMJ': (4, 5, 6), 'MJJ': (5, 6, 7),
           'JJA': (6, 7, 8), 'JAS': (7, 8, 9), 'ASO': (8, 9, 10), 'SON': (9, 10, 11), 'OND': (10, 11, 12), 'NDJ': (11, 12, 1)}
QUARTER = {'DJF': 'QS-DEC', 'JFM': 'QS-JAN', 'FMA': 'QS-FEB', 'MAM': 'QS-MAR', 'AMJ': 'QS-APR', 'MJJ': 'QS-MAY',
           'JJA': 'QS-JUN', 'JAS': 'QS-JUL', 'ASO': 'QS-AUG', 'SON': 'QS-SEP', 'OND': 'QS-OCT', 'NDJ': 'QS-NOV'}
ALIAS = {'hour': 'h', 'day': 'D', 'month': 'MS', 'season': 'QS-DEC', 'year': 'YS'}


def _time(dset, name):
    t = dset[name] if name else dset.cf['time']
    if not (np.issubdtype(t.dtype, np.datetime64) or xr.core.common.contains_cftime_datetimes(t.variable)):
        raise ValueError("not a time coordinate")
    return name if name else t.name


def _uniform(dset, dim):
    if xr.infer_freq(dset[dim]) is None:
        if not (dset[dim].resample({dim: 'MS'}).count() == 1).all():
            raise ValueError("spacing")


def _calendar(t):
    if np.issubdtype(t.dtype, np.datetime64):
        return 'proleptic_gregorian'
    return np.asarray(t).ravel()[0].calendar


def _center(dset, dim, freq, calendar, start, end, keep_attrs):
    if isinstance(start, cftime.datetime) or isinstance(start, str):
        b = xr.date_range(start=start, end=end, freq=freq, calendar=calendar, use_cftime=True)
    else:
        b = xr.date_range(start=start, end=end, freq=freq, calendar=calendar)
    b = b.append(b[-1:].shift(1, freq=freq))
    mid = xr.DataArray(np.vstack((b[:-1], b[1:])).T, dims=[dim, 'nbd']).mean(dim='nbd', keep_attrs=keep_attrs)
    return dset.assign_coords({dim: mid})


def month_to_season(dset, season, time_coord_name=None, keep_attrs=None):
    dim = _time(dset, time_coord_name)
    if dset[dim].size % 12 != 0:
        raise ValueError("whole years")
    if season not in SEASONS:
        raise KeyError(season)
    months = list(SEASONS[season])
    x = dset.sel({dim: dset[dim].dt.month.isin(months)})
    if season == 'DJF':
        x = x.isel({dim: slice(None, -1)})
    if season == 'NDJ':
        x = x.isel({dim: slice(1, None)})
    m = x.resample({dim: QUARTER[season]}).mean(keep_attrs=keep_attrs)
    i = m.indexes[dim]
    if isinstance(i, xr.coding.cftimeindex.CFTimeIndex):
        m[dim] = i + xr.coding.cftime_offsets.to_offset("MS")
    elif isinstance(i, pd.DatetimeIndex):
        m[dim] = i + pd.tseries.frequencies.to_offset("MS")
    else:
        raise ValueError("index")
    return m.sel({dim: m[dim].dt.month == months[1]})


def calendar_average(dset, freq, time_dim=None, keep_attrs='default'):
    if freq not in ALIAS:
        raise ValueError("freq")
    dim = _time(dset, time_dim)
    _uniform(dset, dim)
    cal = _calendar(dset[dim])
    if freq == 'season' or freq == 'year':
        m = dset.resample({dim: 'MS'}).mean(keep_attrs=keep_attrs).dropna(dim)
        days = m[dim].dt.days_in_month.resample({dim: ALIAS[freq]})
        w = days.map(lambda g: g / g.sum())
        out = (m * w).resample({dim: ALIAS[freq]}).sum()
    else:
        m = dset.resample({dim: ALIAS[freq]}).mean(keep_attrs=keep_attrs).dropna(dim)
        out = m
    out = _center(out, dim, ALIAS[freq], cal, out[dim].values[0], out[dim].values[-1], keep_attrs)
    if freq == 'season' or freq == 'year':
        out = out.assign_attrs(m.attrs if keep_attrs or keep_attrs is None else {})
    return out


def climatology_average(dset, freq, custom_seasons=None, time_dim=None, keep_attrs=None):
    if freq not in ('hour', 'day', 'month', 'season'):
        raise ValueError("freq")
    if custom_seasons and freq != 'season':
        warnings.warn("ignored")
    dim = _time(dset, time_dim)
    _uniform(dset, dim)
    cal = _calendar(dset[dim])
    if freq == 'season':
        names = ['DJF', 'JJA', 'MAM', 'SON']
        if custom_seasons:
            names = [custom_seasons] if isinstance(custom_seasons, str) else custom_seasons
            for s in names:
                if s not in SEASONS:
                    raise ValueError("season")
        parts = []
        for s in names:
            m = dset.sel({dim: dset[dim].dt.month.isin(list(SEASONS[s]))})
            m = m.resample({dim: 'MS'}).mean(keep_attrs=keep_attrs).dropna(dim)
            days = m[dim].dt.days_in_month
            parts.append((m * (days / days.sum())).sum(dim=dim))
        out = xr.concat(parts, dim='season')
        out.coords['season'] = np.array(names).astype(object)
        return out.assign_attrs(dset.attrs if keep_attrs is True or keep_attrs is None else {})
    fmt = {'hour': '%m-%d %H', 'day': '%m-%d', 'month': '%m'}[freq]
    year = np.median(dset[dim].dt.year.values)
    out = dset.groupby(dset[dim].dt.strftime(fmt)).mean(keep_attrs=keep_attrs).rename({'strftime': dim})
    t = out[dim].values
    return _center(out, dim, ALIAS[freq], cal, f'{year:.0f}-{t[0]}', f'{year:.0f}-{t[-1]}', keep_attrs)


def climate_anomaly(dset, freq, time_dim=None, keep_attrs='default'):
    dim = _time(dset, time_dim)
    if freq not in ('day', 'month', 'season', 'year'):
        raise ValueError("freq")
    if freq == 'season':
        anom = dset.groupby(f"{dim}.season") - climatology_average(dset, 'season', time_dim=dim, keep_attrs=keep_attrs)
    else:
        if freq == 'year':
            clim = calendar_average(dset, 'year', dim, keep_attrs)
        else:
            clim = climatology_average(dset, freq, time_dim=dim, keep_attrs=keep_attrs)
        fmt = {'day': '%m-%d', 'month': '%m', 'year': '%Y'}[freq]
        anom = dset.groupby(dset[dim].dt.strftime(fmt)) - clim.groupby(clim[dim].dt.strftime(fmt)).sum()
        anom = anom.drop_vars('strftime')
    return anom.drop_attrs().assign_attrs(dset.attrs if keep_attrs or keep_attrs is None else {})
