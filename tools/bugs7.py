"""Seventh table of planted bugs: labels of the result, and the order in which elements are taken (see seed.py)."""
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py')).read().split('BUGS={}')[0])
BUGS={}
def b(i,prop,f,edits,needs,breaks,demo,ts=''):
    BUGS[i]=(prop,f,edits,needs,breaks,H+ts+demo)
b('C28d','C28',S,[("            a = np.ravel(a)","            a = np.ravel(a, order='K')")],
  'a Fortran-ordered first array (a transposed view)','arrays stored in different orders are correlated element by wrong element','''
a, c = np.random.RandomState(0).rand(2, 4, 5)
r = gc.pearson_r(np.asfortranarray(a), c)
assert np.allclose(r, gc.pearson_r(a, c)), r
''')
b('C22c','C22',M,[("        delta_pressure = np.array(delta_pressure).reshape(delta_pressure_shape)","        delta_pressure = np.array(delta_pressure).reshape(\n            delta_pressure_shape, order='F' if surface_pressure.ndim > 2 else 'C'\n        )")],
  'a surface pressure of three or more dimensions','the columns of a three-dimensional surface pressure are scrambled','''
lev = np.array([1., 5, 10, 100, 500, 900]); ps = np.random.RandomState(0).rand(2, 3, 4) * 100 + 850
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    r = gc.delta_pressure(lev, ps)
    for i in np.ndindex(2, 3, 4):
        assert np.allclose(r[i], gc.delta_pressure(lev, ps[i]), equal_nan=True), i
''')
b('C20e','C20',I,[("            np.where(np.isnan(data_in.values), missing_val, data_in.values),\n            dims=data_in.dims,\n            coords=data_in.coords,\n        )","            np.where(np.isnan(data_in.values), missing_val, data_in.values),\n            dims=data_in.dims,\n            coords={d: data_in[d] for d in data_in.dims[-2:]},\n        )")],
  'data with a leading dimension and a missing_val','with a missing_val the coordinates of the leading dimensions are lost','''
d = xr.DataArray(np.arange(24.).reshape(2, 3, 4), dims=['time', 'lat', 'lon'], coords={'time': [10, 20], 'lat': [0., 1, 2], 'lon': [0., 1, 2, 3]})
r = gc.interp_multidim(d, np.array([.5, 1.5]), np.array([.5, 2.5]), missing_val=-99.)
assert list(r.coords) and 'time' in r.coords, r
''')
