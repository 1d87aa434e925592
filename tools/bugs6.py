"""Sixth table of planted bugs: whole-number input whose results are cut to whole numbers (see seed.py)."""
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py')).read().split('BUGS={}')[0])
BUGS={}
def b(i,prop,f,edits,needs,breaks,demo,ts=''):
    BUGS[i]=(prop,f,edits,needs,breaks,H+ts+demo)
b('C42a','C42',M,[("        delta_pressure = np.array(delta_pressure).reshape(delta_pressure_shape)","        delta_pressure = (\n            np.array(delta_pressure)\n            .reshape(delta_pressure_shape)\n            .astype(surface_pressure.dtype)\n        )")],
  'an integer array of surface pressures and layers that are not whole','layer thicknesses lose their fraction','''
lev, ps = np.array([1., 2, 5, 10, 101]), np.array([100, 90])
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    a, c = gc.delta_pressure(lev, ps), gc.delta_pressure(lev, ps.astype(float))
m = c > 0
assert m.sum() > 6 and np.allclose(a[m], c[m]), (a, c)
''')
b('C42b','C42','geocat/comp/fourier_filters.py',[("        xr_result = signal.copy()\n        xr_result.data = result","        xr_result = signal.copy()\n        xr_result[...] = result")],
  'an integer DataArray as the signal','the filtered signal is cut to whole numbers','''
x = np.array([3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8])
r = gc.fourier_low_pass(xr.DataArray(x, dims=['t']), 12, 3)
assert np.allclose(r.values, gc.fourier_low_pass(x.astype(float), 12, 3)), r
''')
b('C42c','C42',I,[("        data_in = xr.DataArray(\n            np.where(data_in.values == missing_val, np.nan, data_in.values),","        filled = data_in.values.copy()\n        filled[data_in.values == missing_val] = np.nan\n        data_in = xr.DataArray(\n            filled,")],
  'integer data with a missing_val','integer data cannot be interpolated when it has a missing value','''
d = xr.DataArray(np.arange(12).reshape(3, 4)**2, dims=['lat', 'lon'], coords={'lat': [0., 1, 2], 'lon': [0., 1, 2, 3]})
r = gc.interp_multidim(d, np.array([.5, 1.5]), np.array([.5, 2.5]), missing_val=0)
q = gc.interp_multidim(d.astype(float), np.array([.5, 1.5]), np.array([.5, 2.5]), missing_val=0)
assert np.allclose(r.values, q.values, equal_nan=True), r
''')
b('C42d','C42',M,[("    latrad = lat * rad\n","    latrad = lat.copy()\n    latrad[...] = lat * rad\n")],
  'latitudes given as an array of whole degrees','whole-degree latitudes are cut to whole radians','''
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    a = gc.max_daylight(np.array([10, 200]), np.array([20, 40, -20]))
    c = gc.max_daylight(np.array([10., 200.]), np.array([20., 40., -20.]))
assert np.allclose(a, c), (a, c)
''')
b('C42e','C42',I,[("    return data_out_modified\n","    return data_out_modified.astype(data_in.dtype)\n")],
  'integer data','values interpolated from integer data are cut to whole numbers','''
d = xr.DataArray(np.arange(12).reshape(3, 4)**2, dims=['lat', 'lon'], coords={'lat': [0., 1, 2], 'lon': [0., 1, 2, 3]})
r = gc.interp_multidim(d, np.array([.5, 1.5]), np.array([.25, 2.5]))
q = gc.interp_multidim(d.astype(float), np.array([.5, 1.5]), np.array([.25, 2.5]))
assert np.allclose(r.values, q.values), r
''')
