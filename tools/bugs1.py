M='geocat/comp/meteorology.py';I='geocat/comp/interpolation.py';C='geocat/comp/climatologies.py';S='geocat/comp/stats.py'
F='geocat/comp/fourier_filters.py';P='geocat/comp/spherical.py';G='geocat/comp/gradient.py';U='geocat/comp/gc_util.py';N='geocat/comp/__init__.py';D='geocat/comp/deprecated.py'
H='import numpy as np, xarray as xr, warnings\nimport geocat.comp as gc\n'
TS='''
import pandas as pd
def months(n=48, start='2001-01-01', name='time', extra=()):
    t = pd.date_range(start, periods=n, freq='MS')
    return xr.DataArray(np.random.RandomState(0).rand(n, 2), dims=[name, 'x'], coords={name: (name, t, {'standard_name': 'time', 'axis': 'T'})}, name='v', attrs={'units': 'K'})
def days(n=730, start='2001-01-01', name='time', freq='D'):
    t = pd.date_range(start, periods=n, freq=freq)
    return xr.DataArray(np.random.RandomState(0).rand(n, 2), dims=[name, 'x'], coords={name: (name, t, {'standard_name': 'time', 'axis': 'T'})}, name='v', attrs={'units': 'K'})
'''
BUGS={}
def b(i,prop,f,edits,needs,breaks,demo,ts=False):
    BUGS[i]=(prop,f,edits,needs,breaks,H+(TS if ts else '')+demo)

b('C01a','C01',I,[("""        data_in = xr.DataArray(
            np.where(data_in.values == missing_val, np.nan, data_in.values),
            dims=data_in.dims,""","""        values = data_in.values.astype(float, copy=False)
        values[values == missing_val] = np.nan
        data_in = xr.DataArray(
            values,
            dims=data_in.dims,""")],'floating-point input and missing_val','the missing values of the caller\'s array are overwritten with NaN','''
a = xr.DataArray(np.array([[1., 2, 99], [3, 4, 5]]), dims=['lat', 'lon'], coords={'lat': [0., 1], 'lon': [0., 1, 2]})
k = a.copy(deep=True)
gc.interp_multidim(a, [0.5], [0.5, 1.5], missing_val=99)
assert a.identical(k), a
''')
b('C01b','C01',F,[("        xr_result = signal.copy()\n        xr_result.data = result\n","        xr_result = signal.copy(deep=False)\n        xr_result[...] = result\n")],'DataArray input','the filtered signal is written into the caller\'s data','''
a = xr.DataArray(np.sin(np.arange(32.)), dims=['t'])
k = a.copy(deep=True)
gc.fourier_low_pass(a, 1, 0.1)
assert a.identical(k)
''')
b('C01c','C01',M,[("        da_attrs = dict(\n            pressure_lev.attrs\n        )","        da_attrs = pressure_lev.attrs")],'DataArray levels and surface pressure','attributes of the caller\'s level coordinate are changed','''
p = xr.DataArray(np.array([10., 50, 100]), dims=['l'], attrs={'units': 'Pa'})
s = xr.DataArray(np.array([90., 120]), dims=['x'])
gc.delta_pressure(p, s)
assert p.attrs == {'units': 'Pa'}, p.attrs
''')
b('C02a','C02',I,[("""    with warnings.catch_warnings():
        warnings.filterwarnings(
            "ignore", r"Interpolation point out of data bounds encountered"
        )
        return func_interpolate(new_levels, xcoords, data, axis=interp_axis)""","""    warnings.filterwarnings(
        "ignore", r"Interpolation point out of data bounds encountered"
    )
    return func_interpolate(new_levels, xcoords, data, axis=interp_axis)""")],'a later caller that wants the warning','the warning filter stays installed after the call','''
d = xr.DataArray(np.array([1., 2, 3]), dims=['lev'])
s = xr.DataArray(np.array([.2, .5, .9]), dims=['lev'])
k = list(warnings.filters)
gc.interp_sigma_to_hybrid(d, s, xr.DataArray(90000.), xr.DataArray(np.array([.2, .1, 0]), dims=['lev']), xr.DataArray(np.array([.1, .4, .8]), dims=['lev']), lev_dim='lev')
assert list(warnings.filters) == k
''')
b('C02b','C02',M,[("def _nws_eqn(coeffs","""# default Rothfusz coefficients
_NWS_COEFFS = [
    -42.379,
    2.04901523,
    10.14333127,
    -0.22475541,
    -0.00683783,
    -0.05481717,
    0.00122874,
    0.00085282,
    -0.00000199,
]


def _nws_eqn(coeffs"""),("""    coeffs = [
        -42.379,
        2.04901523,
        10.14333127,
        -0.22475541,
        -0.00683783,
        -0.05481717,
        0.00122874,
        0.00085282,
        -0.00000199,
    ]
    crit = 79
""","    coeffs = _NWS_COEFFS\n    crit = 79\n"),("        coeffs = [\n            0.363445176,","        coeffs[:] = [\n            0.363445176,")],'a call with alternate_coeffs=True before one without','the alternate coefficients stay in force for every later call','''
t = np.array([90., 95.]); r = np.array([50., 60.])
a = gc.heat_index(t, r)
gc.heat_index(t, r, True)
assert (gc.heat_index(t, r) == a).all()
''')
b('C03a','C03',U,[("""        for var_name in ds.data_vars:
            var_attrs = ds[var_name].attrs
            attr_standard_name = var_attrs.get('standard_name', '')
            if (
                var_name in standard_name_variations
                or attr_standard_name in standard_name_variations
            ):
                return var_name
""","""        for variation in standard_name_variations:
            for var_name in ds.data_vars:
                attr_standard_name = ds[var_name].attrs.get('standard_name', '')
                if var_name == variation or attr_standard_name == variation:
                    return var_name
""")],'two variables that match in different forms','which variable is found depends on the hash seed','''
import os, subprocess, sys
if len(sys.argv) > 1:
    from geocat.comp.gc_util import _find_var
    ds = xr.Dataset({'northward_wind': ('x', [1.]), 'NORTHWARD_WIND': ('x', [1.]), 'Northward_wind': ('x', [1.])})
    print(_find_var(ds, standard_name='northward_wind'))
else:
    out = {subprocess.run([sys.executable, '-W', 'ignore', __file__, 'x'], env=dict(os.environ, PYTHONHASHSEED=str(i)), capture_output=True, text=True).stdout for i in range(5)}
    assert len(out) == 1, out
''')
b('C03b','C03',C,[("                seasons = [seasons]\n","                seasons = [seasons]\n            seasons = list(set(seasons))\n")],'several custom seasons','the order of the seasons in the result depends on the hash seed','''
import os, subprocess, sys
if len(sys.argv) > 1:
    print(list(gc.climatology_average(months(), 'season', custom_seasons=['NDJ', 'JJA', 'MAM', 'ASO']).season.values))
else:
    out = {subprocess.run([sys.executable, '-W', 'ignore', __file__, 'x'], env=dict(os.environ, PYTHONHASHSEED=str(i)), capture_output=True, text=True).stdout for i in range(4)}
    assert len(out) == 1, out
''',True)
b('C04a','C04',M,[("    return delta_pressure(pressure_lev, surface_pressure, pressure_top)","    return delta_pressure(pressure_lev, surface_pressure)")],'pressure_top','dpres_plev ignores pressure_top','''
p = np.array([10., 50, 100])
assert gc.dpres_plev(p, 120., 5.)[0] == gc.delta_pressure(p, 120., 5.)[0]
''')
b('C04b','C04',F,[("        cutoff_frequency_high=cutoff_frequency_high,\n        time_axis=time_axis,\n        band_block=True","        cutoff_frequency_high=cutoff_frequency_high,\n        band_block=True")],'time_axis other than 0','fourier_band_block filters along the first axis','''
a = np.random.RandomState(0).rand(4, 64)
assert np.allclose(gc.fourier_band_block(a, 64, 5, 9, time_axis=1), gc.fourier_filter(a, 64, 5, 9, 1, band_block=True))
''')
b('C04c','C04',M,[("        hyam_coordname=hyam_coordname,\n        hybm_coordname=hybm_coordname,\n    )\n\n\n_gen","        hyam_coordname=hybm_coordname,\n        hybm_coordname=hyam_coordname,\n    )\n\n\n_gen")],'hybrid coefficient names given','zonal_mpsi exchanges the hybrid coefficients','''
import geocat.comp.meteorology as m
got = {}
m.zonal_meridional_psi = lambda *a, **k: got.update(k)
m.zonal_mpsi(None, hyam_coordname='A', hybm_coordname='B')
assert got.get('hyam_coordname') == 'A' and got.get('hybm_coordname') == 'B', got
''')
b('C04d','C04',S,[("npcs=evec.shape[0]","npcs=evec.shape[-1]")],'an evec whose last length is not its first','eofunc_ts returns the wrong number of series','''
d = np.random.RandomState(0).rand(3, 4, 20)
e = gc.eofunc(d, 2)
assert gc.eofunc_ts(d, e).shape == (2, 20)
''')
b('C05a','C05',M,[("    # if elevated to np array, return to original type\n    if in_types[0] in {list, float, int} and isinstance(heatindex, np.ndarray):","    # if elevated to np array, return to original type\n    if in_types[0] in {float, int} and isinstance(heatindex, np.ndarray):")],'list input','heat_index gives an ndarray for list input','''
assert isinstance(gc.heat_index([90., 95], [50., 60]), list)
''')
b('C05b','C05',S,[("    # clear out existing metadata on return object\n","    if isinstance(metric, xr.Dataset) and len(metric.data_vars) == 1:\n        metric = metric.to_dataarray().squeeze()\n    # clear out existing metadata on return object\n")],'Dataset input with one variable','nmse gives a DataArray for Dataset input','''
lat = xr.DataArray(np.linspace(-80, 80, 9), dims='lat', attrs={'units': 'degrees_north', 'standard_name': 'latitude'}); lon = xr.DataArray(np.arange(0, 360, 40.), dims='lon', attrs={'units': 'degrees_east', 'standard_name': 'longitude'})
r = np.random.RandomState(0)
mk = lambda: xr.Dataset({'v': (('lat', 'lon'), r.rand(9, 9))}, coords={'lat': lat, 'lon': lon})
assert isinstance(gc.nmse(mk(), mk()), xr.Dataset)
''')
b('C06a','C06',M,[("        jday = np.asarray(jday, dtype='float32')","        jday = np.asarray(jday, dtype='float32').round(-1)")],'day numbers as a list','the day is rounded for list input','''
assert np.allclose(gc.max_daylight([123., 234], [10.]), gc.max_daylight(np.array([123., 234]), np.array([10.])), atol=1e-4)
''')
b('C06b','C06',M,[("""        temperature = np.asarray(temperature)
        relative_humidity = np.asarray(relative_humidity)

        # function call for non""","""        temperature = np.asarray(temperature)
        relative_humidity = np.clip(np.asarray(relative_humidity), 1, 100)

        # function call for non""")],'relative humidity below 1 % in an ndarray','the humidity is limited for ndarrays only','''
t = np.array([300., 301]); r = np.array([0.5, 50])
assert np.allclose(gc.dewtemp(t, r), gc.dewtemp(xr.DataArray(t), xr.DataArray(r)).values)
''')
b('C07a','C07',M,[("        svp_slope = xr.where(\n            temp_c > 0,","        svp_slope = xr.where(\n            temp_c >= 0,")],'exactly 32 F in a DataArray','the slope at freezing is not tfill','''
assert np.isnan(gc.saturation_vapor_pressure_slope(xr.DataArray([32.]))).all()
''')
b('C07b','C07',M,[("    asvp = saturation_vapor_pressure(tdew, tfill)","    asvp = saturation_vapor_pressure(tdew)\n    if in_type is xr.DataArray:\n        asvp = asvp.fillna(tfill)")],'ndarray input below freezing with tfill','tfill is ignored for arrays','''
assert (gc.actual_saturation_vapor_pressure(np.array([10.]), tfill=-9.) == -9).all()
''')
b('C08b','C08',M,[("np.logical_and(temperature >= 80, temperature <= 112),","np.logical_and(temperature >= 80, temperature < 112),")],'112 F and at most 13 %','the dry adjustment is missing at 112 F','''
a = gc.heat_index(np.array([112.]), np.array([5.])); c = gc.heat_index(np.array([111.999999]), np.array([5.]))
assert abs(a - c)[0] < 1e-2, (a, c)
''')
b('C08c','C08',M,[("    heatindex = xr.where(temperature < 40, temperature, heatindex)","    heatindex = xr.where(temperature <= 40, temperature, heatindex)")],'exactly 40 F','the simple formula does not start at 40 F','''
a = gc.heat_index(np.array([40.]), np.array([50.]))[0]
assert abs(a - 0.5 * (40 + 61 + (40 - 68) * 1.2 + 50 * .094)) < 1e-9, a
''')
b('C08d','C08',M,[("        crit = 70","        crit = 75")],'alternate coefficients, simple index between 70 and 75','the regression starts too late','''
t, r = 73., 50.
a = gc.heat_index(np.array([t]), np.array([r]), True)[0]
s = 0.5 * (t + 61 + (t - 68) * 1.2 + r * .094)
assert 70 < s < 75 and abs(a - s) > 1e-6, (a, s)
''')
b('C09a','C09',M,[("8129.4,","8192.4,")],'a temperature next to 273.16 + ... of that entry','relhum is off by a per cent near one table entry','''
t = np.linspace(174, 375, 2011)
es = 0.622 * 100 * 0.01 / (gc.relhum(t, np.full(2011, .01), np.full(2011, 1e6)) / 1e4) if False else None
q = gc.relhum(t, np.full(t.size, .001), np.full(t.size, 1e9))
s = np.diff(np.log(q), 2)
assert abs(s[20:-60]).max() < 1e-3, (abs(s[20:-60]).max())
''')
b('C09b','C09',M,[("    relative_humidity = relative_humidity.clip(0.0001, None)","    relative_humidity = relative_humidity.clip(0.0001, 100)")],'supersaturated air','relhum is limited to 100 %','''
assert gc.relhum(np.array([280.]), np.array([.02]), np.array([1e5]))[0] > 100
''')
b('C09c','C09',M,[("    maxtemp = 375.16","    maxtemp = 374.16")],'a temperature above 374.16 K','the last degree of the table is not used','''
a = gc.relhum(np.array([374.1, 375.1]), np.array([.02, .02]), np.array([1e6, 1e6]))
assert abs(a[1] / a[0] - 1) > 0.02, a
''')
b('C10b','C10',G,[("        lon2d, lat2d = lon, lat\n","        lon2d, lat2d = lon, np.sort(lat, axis=0)\n")],'two-dimensional latitudes from north to south','the gradient along latitude has the wrong sign','''
lon, lat = np.meshgrid(np.arange(0, 5.), np.arange(40, 30, -2.))
d = lat * 2.
a = gc.gradient(d, lon, lat)[0]
assert (np.asarray(a) > 0).all(), a
''')
b('C10c','C10',G,[("        - 7.41522084948104995730556e-21 * lat**11","        + 7.41522084948104995730556e-21 * lat**11")],'high latitudes','a coefficient of the meridian arc has the wrong sign','''
from geocat.comp.gradient import _arc_lat_wgs84
assert abs(_arc_lat_wgs84(90.) - 10001965.729) < 0.02, _arc_lat_wgs84(90.)
''')
b('C11a','C11',C,[('        "OND": [10, 11, 12],\n        "NDJ"','        "OND": [9, 10, 11],\n        "NDJ"')],'custom season OND','the climatology of OND is that of SON','''
d = months()
a = gc.climatology_average(d, 'season', custom_seasons='OND').values[0]
w = d.time.dt.days_in_month
x = d.where(d.time.dt.month >= 10, drop=True); w = w.where(w.time.dt.month >= 10, drop=True)
assert np.allclose(a, ((x * w).sum('time') / w.sum()).values)
''',True)
b('C11b','C11',C,[("""        season == 'NDJ'
    ):  # For this season, the first "mean" will be the value for Jan so we drop the first month
        data_filter = data_filter.isel({time_coord_name: slice(1, None)})""","""        season == 'NDJ'
    ):  # For this season, the first "mean" will be the value for Jan so we drop the first month
        data_filter = data_filter.isel({time_coord_name: slice(None, -1)})""")],'season NDJ','the last NDJ loses a month and the January mean is wrong','''
d = months(24)
a = gc.month_to_season(d, 'NDJ')
assert a.sizes['time'] == 2 and np.allclose(a.values[0], d.values[[10, 11, 12]].mean(0)) and np.allclose(a.values[-1], d.values[[22, 23]].mean(0)), a
''',True)
b('C12a','C12',C,[("        'hour': ('%m-%d %H', 'h'),\n        'day': ('%m-%d', 'D'),\n        'month': ('%m', 'MS'),\n        'season': (None, 'QS-DEC'),\n    }","        'hour': ('%m-%d %I', 'h'),\n        'day': ('%m-%d', 'D'),\n        'month': ('%m', 'MS'),\n        'season': (None, 'QS-DEC'),\n    }")],'hourly climatology','morning and evening hours are averaged together','''
d = days(48, freq='h')
try:
    a = gc.climatology_average(d, 'hour')
    n = a.sizes['time']
except Exception as e:
    n = repr(e)
assert n == 48, n
''',True)
b('C12b','C12',C,[("        weights = month_length.map(lambda group: group / group.sum())\n","        weights = month_length.map(lambda group: group / group.sum())\n        if freq == 'season':\n            weights = weights.round(2)\n")],'seasonal averages','the weights of a season do not add up to one','''
d = months() * 0 + 1
assert np.allclose(gc.calendar_average(d, 'season').values, 1, atol=1e-9)
''',True)
b('C12c','C12',C,[("        dset.resample({time_dim: frequency})\n        .mean(keep_attrs=keep_attrs)\n        .dropna(time_dim)","        dset.resample({time_dim: frequency})\n        .median(keep_attrs=keep_attrs)\n        .dropna(time_dim)")],'more than two values per period','calendar averages are medians','''
d = days(60)
assert np.allclose(gc.calendar_average(d, 'month').values[0], d.values[:31].mean(0))
''',True)
b('C13a','C13',C,[("        'day': ('%m-%d', 'D'),\n        'month': ('%m', 'MS'),\n        'season': (None, 'QS-DEC'),\n        'year': ('%Y', 'Y'),","        'day': ('%j', 'D'),\n        'month': ('%m', 'MS'),\n        'season': (None, 'QS-DEC'),\n        'year': ('%Y', 'Y'),")],'a record with a leap year','after February the anomaly of a leap year uses the neighbouring day','''
d = days(365 * 3 + 1, '2003-01-01')
d = d.isel(time=~((d.time.dt.month == 2) & (d.time.dt.day == 29)).values) if False else d
d = days(365 * 4 + 1, '2001-01-01')
d = d.copy(data=np.broadcast_to((d.time.dt.month * 100 + d.time.dt.day).values[:, None], d.shape).astype(float))
try:
    a = abs(gc.climate_anomaly(d, 'day')).max().item()
except Exception as e:
    if 'day is out of range' in str(e) or '02-29' in str(e): a = 0
    else: raise
t = days(365 * 3, '2004-01-01'); 
t = t.copy(data=np.broadcast_to((t.time.dt.month * 100 + t.time.dt.day).values[:, None], t.shape).astype(float))
try:
    a = max(a, abs(gc.climate_anomaly(t.sel(time=slice('2004-03-01', None)), 'day')).max().item())
except Exception as e:
    if 'out of range' not in str(e): raise
assert a < 1e-9, a
''',True)
b('C14a','C14',C,[("        clim = calendar_average(dset, freq, time_dim, keep_attrs)","        clim = calendar_average(dset, freq, keep_attrs=keep_attrs)")],'two time coordinates and an explicit time_dim, yearly anomalies','the climatology is computed along the inferred time dimension','''
d = months(name='init').drop_attrs()
d['init'].attrs = {}
a = gc.climate_anomaly(d, 'year', time_dim='init')
assert a.dims == d.dims
''',True)
b('C14b','C14',S,[("        data = np.moveaxis(data, time_dim, 0)","        data = np.swapaxes(data, time_dim, 0)")],'array input with three or more dimensions and the time axis last','the space dimensions of the EOFs are exchanged','''
d = np.random.RandomState(0).rand(3, 4, 20)
assert gc.eofunc_eofs(d, 1, time_dim=2).shape == (1, 3, 4)
''')
b('C15a','C15',C,[("    means = data_filter.resample({time_coord_name: quarter}).mean(keep_attrs=keep_attrs)","    means = data_filter.resample({time_coord_name: quarter}).mean()")],'keep_attrs=False (or True, depending on xarray)','month_to_season ignores keep_attrs','''
d = months(24)
assert gc.month_to_season(d, 'MAM', keep_attrs=False).attrs == {} and gc.month_to_season(d, 'MAM', keep_attrs=True).attrs == {'units': 'K'}
''',True)
b('C15b','C15',C,[("    if keep_attrs in {True, None}:","    if keep_attrs in {True}:")],'seasonal climatology with the default keep_attrs','the attributes are dropped by default','''
assert gc.climatology_average(months(), 'season').attrs == {'units': 'K'}
''',True)
b('C16a','C16',M,[("relative_humidity.min() < 0 or relative_humidity.max() > 100","relative_humidity.min() < 0 or relative_humidity.max() >= 100")],'exactly 100 %','saturated air is rejected','''
gc.heat_index(np.array([90.]), np.array([100.]))
''')
b('C16b','C16',M,[("        if pressure_top > pressure_lev.min():","        if pressure_top >= pressure_lev.min():")],'pressure_top equal to the highest level','valid input is rejected','''
gc.delta_pressure(np.array([10., 50, 100]), 120., 10.)
''')
b('C16c','C16',S,[("    if neofs <= 0:","    if neofs < 0:")],'neofs=0','zero modes are accepted','''
try:
    gc.eofunc_eofs(np.random.RandomState(0).rand(20, 3, 4), neofs=0)
except ValueError as e:
    assert 'positive' in str(e)
else:
    raise SystemExit(1)
''')
b('C16d','C16',C,[("    if xr.infer_freq(dset[time_dim]) is None:\n        # if spacing cannot be inferred, allow spacings of 1/month\n        if not (dset[time_dim].resample({time_dim: 'MS'}).count() == 1).all():","    if xr.infer_freq(dset[time_dim]) is None:\n        # if spacing cannot be inferred, allow spacings of 1/month\n        if not (dset[time_dim].resample({time_dim: 'MS'}).count() == 1).any():")],'an uneven time axis with one month that has a single value','uneven spacing is accepted','''
t = np.array(['2001-01-05', '2001-02-01', '2001-02-07', '2001-03-09'], dtype='datetime64[ns]')
d = xr.DataArray(np.arange(4.), dims='time', coords={'time': t})
try:
    gc.climatology_average(d, 'month', time_dim='time')
except ValueError:
    pass
else:
    raise SystemExit(1)
''')
