"""Third table of planted bugs (see seed.py)."""
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py')).read().split('BUGS={}')[0])
BUGS={}
def b(i,prop,f,edits,needs,breaks,demo,ts=''):
    BUGS[i]=(prop,f,edits,needs,breaks,H+ts+demo)
b('C07d','C07',M,[("    asvp = saturation_vapor_pressure(tdew, tfill)","    asvp = saturation_vapor_pressure(tdew)")],'a fill value and a dew point below freezing','tfill is ignored','''
assert gc.actual_saturation_vapor_pressure(np.array([20.]), tfill=-9.)[0] == -9.
''')
b('C07e','C07',M,[("    pi2yr = 2 * pi / 365\n","    pi2yr = 2 * pi / (365 + (jday.max() > 365))\n")],'day 366 among the days','the length of the year depends on the days asked for','''
a = gc.max_daylight(np.array([100., 200]), np.array([40.])); b = gc.max_daylight(np.array([100., 366]), np.array([40.]))
assert np.allclose(a[0], b[0], rtol=1e-7, atol=0), (a[0], b[0])
''')
b('C08f','C08',M,[("        - ((13 - relative_humidity) / 4)\n        * np.sqrt(abs((17 - abs(temperature - 95))) / 17),","        - ((13 - relative_humidity) / 4)\n        * np.sqrt((17 - (temperature - 95)) / 17),")],'dry air below 95 F','the dry adjustment is not symmetric about 95 F','''
r = gc.heat_index(np.array([88.]), np.array([10.]))[0]
c = [-42.379, 2.04901523, 10.14333127, -0.22475541, -0.00683783, -0.05481717, 0.00122874, 0.00085282, -0.00000199]
t, h = 88., 10.
e = c[0] + c[1]*t + c[2]*h + c[3]*t*h + c[4]*t*t + c[5]*h*h + c[6]*t*t*h + c[7]*t*h*h + c[8]*t*t*h*h
e = e if (61 + (t - 68) * 1.2 + h * .094 + t) / 2 >= 79 else (61 + (t - 68) * 1.2 + h * .094 + t) / 2
assert abs(r - (e - 3 / 4 * np.sqrt((17 - 7) / 17))) < 1e-9, r
''')
b('C13c','C13',C,[("    if freq == 'year':\n        clim = calendar_average(dset, freq, time_dim, keep_attrs)","    if freq == 'year':\n        clim = dset.resample({time_dim: 'YS'}).mean(keep_attrs=keep_attrs)")],'monthly data','anomalies from the year are taken from the unweighted mean of the months','''
a = months(24)
d = np.array([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31.])
w = (a.values[:12] * d[:, None]).sum(0) / 365
r = gc.climate_anomaly(a, 'year')
assert np.allclose(r.values[:12], a.values[:12] - w), r
''',TS)
b('C13d','C13',C,[("            dset.groupby(dset[time_dim].dt.strftime(format))\n            - clim.groupby","            dset.groupby(dset[time_dim].dt.strftime(format)).shuffle_to_chunks() - clim.groupby")] if False else [("            dset, freq=freq, time_dim=time_dim, keep_attrs=keep_attrs\n        )\n    if freq == 'season':","            dset.isel({time_dim: slice(0, 12 * (dset.sizes[time_dim] // 12))}),\n            freq=freq,\n            time_dim=time_dim,\n            keep_attrs=keep_attrs,\n        )\n    if freq == 'season':")],'a record whose length is not a multiple of twelve','the last samples are left out of the climatology','''
a = months(40)
r = gc.climate_anomaly(a, 'month')
w = a.values - np.stack([a.values[i % 12::12].mean(0) for i in range(40)])
assert np.allclose(r.sortby('time').values, w)
''',TS)
b('C14b','C14',F,[("    result = np.swapaxes(result, time_axis, 0)","    result = np.moveaxis(result, 0, time_axis)")],'three-dimensional data filtered along the last axis','the axes of the result come back in another order','''
x = np.random.RandomState(0).rand(4, 4, 4)
r = gc.fourier_low_pass(x, 1, 0.6, time_axis=2)
w = np.stack([np.stack([gc.fourier_low_pass(v, 1, 0.6) for v in y]) for y in x])
assert np.allclose(r, w)
''')
b('C31b','C31',I,[("import numpy as np\nimport xarray as xr\n","import numpy as np\nimport xarray as xr\nfrom dask.array.core import map_blocks\n"),("        from dask.array.core import map_blocks\n\n        # Chunk","        # Chunk")],'an environment without dask','importing the package needs dask, which is not a declared dependency','''
''')
BUGS['C31b'] = BUGS['C31b'][:5] + ('''
import sys
sys.modules['dask'] = None
for k in [k for k in sys.modules if k.startswith('dask.')]:
    del sys.modules[k]
class Block:
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] == 'dask':
            import inspect
            if any('geocat' in f.filename for f in inspect.stack()) and not any('xarray' in f.filename or 'xskillscore' in f.filename for f in inspect.stack()):
                raise ImportError('no dask')
del sys.modules['dask']
sys.meta_path.insert(0, Block())
import xskillscore, xarray, metpy.interpolate
for k in [k for k in sys.modules if k.split('.')[0] == 'dask']:
    del sys.modules[k]
import geocat.comp
''',)
b('C33c','C33',I,[("    output = xr.DataArray(output, name=data.name, attrs=data.attrs)","    output = xr.DataArray(output, attrs=data.attrs)")],'named data','the result has no name','''
assert gc.interp_hybrid_to_pressure(data, ps, hyam, hybm, new_levels=new, lev_dim='lev').name == 'T'
''',HY)
b('C34b','C34',I,[("    tplat = xr.apply_ufunc(np.minimum, 298, t0, dask='parallelized')","    tplat = xr.where(t0.values < 298, t0, 298)")],'dask input extrapolated below ground','the temperature is computed eagerly','''
import dask.array as da
from geocat.comp.interpolation import _temp_extrapolate as te
n = []
x = da.from_array(np.array([280., 290]), chunks=1).map_blocks(lambda a: (n.append(1), a)[1], dtype=float, meta=np.array(()))
te(xr.DataArray(x, dims=['x']), xr.DataArray(90000.), 80000., xr.DataArray(np.array([80500., 80500]), dims=['x']), xr.DataArray(np.array([100., 25000]), dims=['x']))
assert not n
''')
b('C34c','C34',F,[],'','','') if False else None
b('C35b','C35',I,[("        func_interpolate = _func_interpolate(method)\n    except ValueError as vexc:\n        raise ValueError(vexc.args[0])\n\n    # Calculate sigma","        func_interpolate = _func_interpolate(method)\n    except Exception:\n        func_interpolate = _func_interpolate()\n\n    # Calculate sigma")],'a misspelled method','an unknown method silently becomes linear','''
s = xr.DataArray(np.array([.1, .5, .9]), dims=['l'])
try:
    gc.interp_sigma_to_hybrid(s, s, xr.DataArray(100000.), xr.DataArray(np.array([.1, .05]), dims=['l']), xr.DataArray(np.array([.1, .7]), dims=['l']), lev_dim='l', method='cubic')
except ValueError:
    pass
else:
    raise SystemExit(1)
''')
b('C04e','C04',S,[("    time_dim = int(kwargs.get(\"time_dim\", data.ndim - 1))\n    meta = bool(kwargs.get(\"meta\"))\n\n    return eofunc_pcs(","    time_dim = int(kwargs.get(\"time_dim\") or data.ndim - 1)\n    meta = bool(kwargs.get(\"meta\"))\n\n    return eofunc_pcs(")],'time_dim=0','an explicit first dimension is taken for "not given"','''
d = np.random.RandomState(0).rand(12, 5)
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    a = gc.eofunc_ts(d, np.ones((2, 5)), time_dim=0)
assert a.shape == (2, 12), a.shape
''')
b('C03c','C03',S,[("        dims = [\"eof\"] + [dim for dim in data.dims if dim != time_name]","        dims = [\"eof\"] + list(set(data.dims) - {time_name})")] if False else [("        return fourier","")] if False else [("    lat_name = observed.cf.coordinates['latitude']","    lat_name = list(set(observed.cf.coordinates['latitude']))")],'several latitude coordinates','the reported names come in hash order','''
''') if False else None
