"""Fourth table of planted bugs: cells that leak into each other (see seed.py)."""
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py')).read().split('BUGS={}')[0])
BUGS={}
def b(i,prop,f,edits,needs,breaks,demo,ts=''):
    BUGS[i]=(prop,f,edits,needs,breaks,H+ts+demo)
b('C40a','C40',F,[("    res_fft = np.fft.fft(data, axis=0)","    scale = np.abs(data).max()\n    scale = scale if scale != 0 else 1.0\n    res_fft = np.fft.fft(data / scale, axis=0)"),
                  ("    result = np.fft.ifft(res_fft, axis=0)","    result = np.fft.ifft(res_fft, axis=0) * scale")],'a series with a missing value next to complete ones','one missing value makes every filtered series NaN','''
x = np.random.RandomState(0).rand(50, 3)
y = x.copy(); y[7, 1] = np.nan
a = gc.fourier_low_pass(x, 1, 0.2); c = gc.fourier_low_pass(y, 1, 0.2)
assert np.allclose(np.real(a[:, 0]), np.real(c[:, 0])), c[:, 0]
''')
b('C40b','C40',C,[("    means = data_filter.resample({time_coord_name: quarter}).mean(keep_attrs=keep_attrs)\n","    means = data_filter.resample({time_coord_name: quarter}).mean(keep_attrs=keep_attrs)\n    means = means.dropna(time_coord_name)\n")],
  'a cell without values in one season','a season is dropped for every cell when one cell has no value in it','''
a = months(36)
c = a.copy(deep=True); c[12:24, 1] = np.nan
r, s = gc.month_to_season(a, 'JJA'), gc.month_to_season(c, 'JJA')
assert r.shape == s.shape and np.allclose(r[:, 0], s[:, 0]), s
''',TS)
b('C40d','C40',I,[("            output.plev <= p_sfc, data.isel({lev_dim: sfc_index}, drop=True)","            output.plev <= p_sfc.max(), data.isel({lev_dim: sfc_index}, drop=True)")],
  'extrapolation of an "other" variable over terrain of different heights','below-ground values depend on the highest surface pressure anywhere','''
d = xr.DataArray(np.arange(12.).reshape(4, 1, 3), dims=['lev', 'lat', 'lon'], coords={'lev': [.1, .3, .65, .99], 'lat': [0.], 'lon': [0., 1, 2]})
d.lev.attrs.update(standard_name='air_pressure', axis='Z')
d = d.transpose('lev', 'lat', 'lon')
nl = np.array([96000., 90000.])
def run(p):
    q = ps.copy(data=np.array([p]))
    return gc.interp_hybrid_to_pressure(d, q, hyam, hybm, new_levels=nl, lev_dim='lev', extrapolate=True, variable='other')
r, s = run([90000., 95000, 80000]), run([90000., 95000, 101000])
assert np.allclose(r.isel(lon=[0, 1]), s.isel(lon=[0, 1]), equal_nan=True), (r, s)
''',HY)
b('C40e','C40',C,[("            dset.groupby(dset[time_dim].dt.strftime(format))\n            .mean(keep_attrs=keep_attrs)\n            .rename({'strftime': time_dim})",
                   "            dset.dropna(time_dim)\n            .groupby(dset[time_dim].dt.strftime(format))\n            .mean(keep_attrs=keep_attrs)\n            .rename({'strftime': time_dim})")],
  'one missing value in one cell','a time is ignored for every cell when one cell has no value at it','''
a = months(48)
c = a.copy(deep=True); c[5, 1] = np.nan
r, s = gc.climatology_average(a, 'month'), gc.climatology_average(c, 'month')
assert np.allclose(r[:, 0], s[:, 0]), s
''',TS)
