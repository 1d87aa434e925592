"""Second table of planted bugs (see seed.py)."""
M='geocat/comp/meteorology.py';I='geocat/comp/interpolation.py';C='geocat/comp/climatologies.py';S='geocat/comp/stats.py'
F='geocat/comp/fourier_filters.py';P='geocat/comp/spherical.py';G='geocat/comp/gradient.py';U='geocat/comp/gc_util.py';N='geocat/comp/__init__.py';D='geocat/comp/deprecated.py'
H='import numpy as np, xarray as xr, warnings\nimport geocat.comp as gc\n'
TS='''
import pandas as pd
def months(n=48, start='2001-01-01', name='time', extra=()):
    t = pd.date_range(start, periods=n, freq='MS')
    return xr.DataArray(np.random.RandomState(0).rand(n, 2), dims=[name, 'x'], coords={name: (name, t, {'standard_name': 'time', 'axis': 'T'})}, name='v', attrs={'units': 'K'})
def days(n=730, start='2001-01-01', name='time', freq='D'):
    t = pd.date_range(start, periods=n, freq=freq)
    return xr.DataArray(np.random.RandomState(0).rand(n, 2), dims=[name, 'x'], coords={name: (name, t, {'standard_name': 'time', 'axis': 'T'})}, name='v', attrs={'units': 'K'})
'''
HY='''
hyam = xr.DataArray(np.array([.01, .1, .05, 0]), dims=['lev'])
hybm = xr.DataArray(np.array([0, .2, .6, .99]), dims=['lev'])
ps = xr.DataArray(np.array([[100000., 95000, 101000]]), dims=['lat', 'lon'], coords={'lat': [0.], 'lon': [0., 1, 2]})
data = xr.DataArray(np.arange(12.).reshape(4, 1, 3)**1.5 + 200, dims=['lev', 'lat', 'lon'], coords={'lev': [1., 2, 3, 4], 'lat': [0.], 'lon': [0., 1, 2]}, name='T', attrs={'units': 'K'})
new = np.array([5000., 30000, 70000])
'''
BUGS={}
def b(i,prop,f,edits,needs,breaks,demo,ts=''):
    BUGS[i]=(prop,f,edits,needs,breaks,H+ts+demo)

# ---- replacements of rejected ones
b('C02c','C02',U,[("    setattr(wrapper_fcn, '__doc__', wrapper_docstring)","    setattr(wrapper_fcn, '__doc__', wrapper_docstring)\n    setattr(base_fcn, 'wrapper', wrapper_fcn)"),
 ("    error_parts = []\n","    error_parts = getattr(_find_var, 'tried', None)\n    if error_parts is None:\n        error_parts = _find_var.tried = []\n")],
 'a second failing lookup','the list of attempted names is kept on the function object and grows from call to call','''
from geocat.comp import gc_util
ds = xr.Dataset({'q': ('x', [1.])})
m = []
for _ in range(2):
    try:
        gc_util._find_var(ds, possible_names=['zz'])
    except KeyError as e:
        m.append(str(e))
assert m[0] == m[1], m
''')
b('C05c','C05',M,[("        temperature = np.asarray(temperature)\n        relative_humidity = np.asarray(relative_humidity)\n\n        # function call","        temperature = np.atleast_1d(temperature)\n        relative_humidity = np.atleast_1d(relative_humidity)\n\n        # function call")],
 'scalar input','a scalar dew point comes back as an array of one element','''
r = gc.dewtemp(290., 50.)
assert np.ndim(r) == 0, r
''')
b('C06c','C06',F,[("    if type(signal) is xr.DataArray:\n        xr_result = signal.copy()","    if type(signal) is xr.DataArray and signal.chunks is None:\n        xr_result = signal.copy()")],
 'a dask-backed DataArray','the filter returns a bare array for dask-backed input','''
a = xr.DataArray(np.sin(np.arange(32.)), dims=['t'])
r = gc.fourier_low_pass(a.chunk({'t': 8}), 1, 0.2)
assert isinstance(r, xr.DataArray)
assert np.allclose(r, gc.fourier_low_pass(a, 1, 0.2))
''')
b('C08e','C08',M,[("    heatindex = xr.where(temperature < 40, temperature, heatindex)\n","    heatindex = xr.where(temperature <= 40, temperature, heatindex)\n")],
 'exactly 40 F','the average with Steadman is skipped at 40 F','''
a = gc.heat_index(np.array([40., 50.]), np.array([20., 20.]))
assert abs(a[0] - ((61 + (40 - 68) * 1.2 + 20 * 0.094) + 40) / 2) < 1e-9, a
''')
b('C09a','C09',M,[("1556.7, 1716.9, 1890.3, 2077.6","1556.7, 1719.6, 1890.3, 2077.6")],
 'a temperature around 258 K','two digits of the saturation table are transposed','''
t = 173.16 + 85
r = float(gc.relhum(np.array([t]), np.array([1e-3]), np.array([80000.]))[0])
es = 171.69
assert abs(r - 1e-3 * (80000 - 0.378 * es) / (0.622 * es) * 100) < 1e-3 * r, r
''')
# ---- C12
b('C15c','C15',S,[("        try:\n            return xs.pearson_r(a, b, dim, weights, skipna, keep_attrs)","        try:\n            return xs.pearson_r(a, b, dim, weights, skipna)")],
 'keep_attrs=True','pearson_r drops the attributes it was asked to keep','''
a = xr.DataArray(np.random.RandomState(0).rand(9), dims=['t'], attrs={'u': 'K'})
r = gc.pearson_r(a, a * 2 + 1, dim='t', keep_attrs=True)
assert r.attrs == {'u': 'K'}, r.attrs
''')
b('C16e','C16',I,[("    if type(p0) not in {float, int}:","    if not np.isscalar(p0):")],
 'p0 given as a string','a string p0 is no longer rejected with TypeError','''
try:
    gc.delta_pressure_hybrid(np.ones((2, 2)), np.array([.1, .2, .3]), np.array([0, .5, 1.]), p0='1e5')
except TypeError as e:
    assert 'p0 must be' in str(e), e
else:
    raise SystemExit(1)
''')
b('C16f','C16',G,[("    elif len(lon.shape) == 2 and len(lat.shape) == 2:","    elif len(lon.shape) == len(lat.shape):")],
 'three-dimensional coordinates','coordinates of a wrong rank get past the check','''
try:
    gc.gradient(np.random.rand(2, 3, 4), lon=np.random.rand(2, 3, 4), lat=np.random.rand(2, 3, 4))
except ValueError as e:
    assert '1d or 2d' in str(e)
else:
    raise SystemExit(1)
''')
# ---- C17
b('C17a','C17',I,[("            hyb = hyb.rename({b: a for a, b in zip(hya.dims, hyb.dims)})","            hya = hya.rename({a: b for a, b in zip(hya.dims, hyb.dims)})")],
 'coefficients with different dimension names','the pressure is laid out along the name of hyb\'s dimension','''
r = gc.pressure_at_hybrid_levels(xr.DataArray(np.array([1e5]), dims=['x']), xr.DataArray(np.array([.1, 0]), dims=['lev']), xr.DataArray(np.array([0, 1.]), dims=['z']))
assert 'lev' in r.dims and 'z' not in r.dims, r.dims
''')
b('C17b','C17',I,[("    dph = abs(pa - pb)","    dph = pb - pa")],'levels ordered from the surface up','thicknesses come out negative','''
r = gc.delta_pressure_hybrid(np.full((1, 1), 1e5), np.array([0, .1, .2]), np.array([1., .5, 0]))
assert (r > 0).all(), r
''')
b('C17c','C17',I,[("    pa = p0 * hya[:-1] + hyb[:-1] * ps\n    pb = p0 * hya[1:] + hyb[1:] * ps","    pa = 100000.0 * hya[:-1] + hyb[:-1] * ps\n    pb = 100000.0 * hya[1:] + hyb[1:] * ps")],'a reference pressure other than 1000 hPa','p0 is ignored','''
r = gc.delta_pressure_hybrid(np.full((1, 1), 1e5), np.array([.2, .1, 0]), np.array([0, .5, 1.]), p0=50000.0)
assert np.allclose(r.ravel(), [45000., 45000]), r
''')
# ---- C18
b('C18a','C18',I,[("        0.002 * ((2500 - hgt) * t0 + ((hgt - 2000) * tplat)),","        0.002 * ((2500 - hgt) * tplat + ((hgt - 2000) * t0)),")],'terrain between 2000 and 2500 m','the blend of plateau temperatures runs the wrong way','''
from geocat.comp.interpolation import _temp_extrapolate as te
f = lambda h: float(te(xr.DataArray(290.), xr.DataArray(90000.), xr.DataArray(80000.), xr.DataArray(80500.), xr.DataArray(h * 9.80616)))
assert abs(f(2499.9) - f(2500.1)) < 1e-2, (f(2499.9), f(2500.1))
''')
b('C18c','C18',I,[("    tstar = xr.where((tstar < 255), 0.5 * (tstar + 255), tstar)\n","    tstar = xr.where((tstar < 225), 0.5 * (tstar + 225), tstar)\n")],'a cold lowest level','the cold correction starts at 225 K instead of 255 K','''
from geocat.comp.interpolation import _geo_height_extrapolate as ge
a = float(ge(xr.DataArray(235.), xr.DataArray(101000.), xr.DataArray(100000.), xr.DataArray(100000.), xr.DataArray(100.)))
t = 0.5 * (235. + 255); R = 287.04; g = 9.80616; al = .0065 * R / g * np.log(1.01)
assert abs(a - (100 / g - R * t / g * np.log(1.01) * (1 + .5 * al + al * al / 6))) < 1e-3, a
''')
b('C18d','C18',I,[("    sfc_index = pressure[lev_dim].argmax(dim=lev_dim)","    sfc_index = abs(pressure[lev_dim]).argmax(dim=lev_dim)")],'a level coordinate with negative values','the lowest level is looked up by magnitude','''
d = data.assign_coords(lev=[-8., -3, -2, -1]); A = hyam.assign_coords(lev=[-8., -3, -2, -1]); B = hybm.assign_coords(lev=[-8., -3, -2, -1])
r = gc.interp_hybrid_to_pressure(d, ps, A, B, new_levels=np.array([50000., 105000.]), lev_dim='lev', extrapolate=True, variable='other')
assert np.allclose(r.isel(plev=1), d.isel(lev=3)), r
''',HY)
# ---- C19
b('C19a','C19',I,[("    pressure = pressure_at_hybrid_levels(ps, hyam, hybm, p0)  # Pa","    pressure = pressure_at_hybrid_levels(ps, hyam, hybm)  # Pa")],'a reference pressure other than 1000 hPa','p0 is ignored','''
a = gc.interp_hybrid_to_pressure(data, ps, hyam, hybm, p0=90000., new_levels=new, lev_dim='lev')
b = gc.interp_hybrid_to_pressure(data, ps, hyam * .9, hybm, new_levels=new, lev_dim='lev')
assert np.allclose(a, b, equal_nan=True)
''',HY)
b('C19d','C19',I,[("        out_chunks[interp_axis] = (new_levels.size,)\n        out_chunks = tuple(out_chunks)","        out_chunks[interp_axis] = (new_levels.size,)\n        out_chunks = tuple(out_chunks)\n        interp_axis = 0 if len(out_chunks) < 3 else interp_axis")],'dask data of two dimensions with levels second','the interpolation runs along the wrong axis','''
d = data.isel(lat=0).transpose('lon', 'lev'); p = ps.isel(lat=0)
a = gc.interp_hybrid_to_pressure(d, p, hyam, hybm, new_levels=new, lev_dim='lev')
b = gc.interp_hybrid_to_pressure(d.chunk({'lon': 1, 'lev': 2}), p, hyam, hybm, new_levels=new, lev_dim='lev').compute()
assert a.shape == b.shape and np.allclose(a, b, equal_nan=True)
''',HY)
# ---- C20
b('C20a','C20',I,[("        padded_data = np.pad(data_in.values, ((0, 0), (1, 1)), mode='wrap')","        padded_data = np.pad(data_in.values, ((0, 0), (1, 1)), mode='symmetric')")],'cyclic data sampled past the last longitude','the wrapped column repeats the edge it is put at','''
a = xr.DataArray(np.arange(8.).reshape(2, 4), dims=['lat', 'lon'], coords={'lat': [0., 1], 'lon': [0., 90, 180, 270]})
r = gc.interp_multidim(a, np.array([0.]), np.array([300.]), cyclic=True)
assert abs(float(r[0, 0]) - 2.0) < 1e-9, r
''')
b('C20b','C20',I,[("            np.where(np.isnan(data_in.values), missing_val, data_in.values),","            np.where(data_in.values == missing_val, np.nan, data_in.values),")],'missing_val given','missing results come back as NaN','''
a = xr.DataArray(np.array([[1., 99], [3, 4]]), dims=['lat', 'lon'], coords={'lat': [0., 1], 'lon': [0., 1]})
r = gc.interp_multidim(a, np.array([0.5]), np.array([0.5]), missing_val=99)
assert float(r[0, 0]) == 99, r
''')
b('C20c','C20',I,[("    data_in_modified = _pre_interp_multidim(data_in, cyclic, missing_val)","    data_in_modified = _pre_interp_multidim(data_in, cyclic, None if cyclic else missing_val)")],'cyclic data with a missing value','missing values are averaged as if they were data','''
a = xr.DataArray(np.array([[1., 99, 1, 1], [3, 4, 3, 3]]), dims=['lat', 'lon'], coords={'lat': [0., 1], 'lon': [0., 90, 180, 270]})
r = gc.interp_multidim(a, np.array([0.5]), np.array([45.]), missing_val=99, cyclic=True)
assert float(r[0, 0]) == 99, r
''')
b('C20d','C20',I,[("        output_coords, method=method, kwargs={'fill_value': fill_value}","        output_coords, method=method, kwargs={'fill_value': np.nan if cyclic else fill_value}")],'cyclic data, latitudes outside the grid and a fill value','fill_value is ignored','''
a = xr.DataArray(np.arange(8.).reshape(2, 4), dims=['lat', 'lon'], coords={'lat': [0., 1], 'lon': [0., 90, 180, 270]})
r = gc.interp_multidim(a, np.array([5.]), np.array([45.]), fill_value=-1., cyclic=True)
assert float(r[0, 0]) == -1, r
''')
# ---- C21
SH='''
sig = xr.DataArray(np.array([.1, .5, .9]), dims=['sigma'])
A = xr.DataArray(np.array([.1, .05]), dims=['sigma']); B = xr.DataArray(np.array([.1, .7]), dims=['sigma'])
PS = xr.DataArray(np.array([[100000., 90000], [95000, 80000]]), dims=['y', 'x'])
dat = xr.DataArray(np.random.RandomState(1).rand(3, 2, 2), dims=['sigma', 'y', 'x'])
def ref(d, ps, p0=1e5):
    return np.interp(A.values * p0 / ps + B.values, sig.values, d)
'''
b('C21a','C21',I,[("    sigma = _sigma_from_hybrid(ps, hyam, hybm, p0)  # Pa","    sigma = _sigma_from_hybrid(ps, hyam, hybm)  # Pa")],'a reference pressure other than 1000 hPa','p0 is ignored','''
r = gc.interp_sigma_to_hybrid(dat, sig, PS, A, B, p0=80000., lev_dim='sigma')
assert np.allclose(r[:, 1, 0], ref(dat[:, 1, 0].values, 95000., 80000.)), r
''',SH)
b('C21b','C21',I,[("                _vertical_remap(func_interpolate, s.data, sig_coords.data, d.data),","                _vertical_remap(\n                    func_interpolate, sigma_stacked[0].data, sig_coords.data, d.data\n                ),")],'columns with different surface pressures','every column is interpolated to the sigma levels of the first','''
r = gc.interp_sigma_to_hybrid(dat, sig, PS, A, B, lev_dim='sigma')
assert np.allclose(r[:, 1, 1], ref(dat[:, 1, 1].values, 80000.)), r
''',SH)
# ---- C22
b('C22b','C22',M,[("    if is_pressuredecreasing:\n        delta_pressure = np.flip(delta_pressure)","    if is_pressuredecreasing and end_level == len(pressure_lev) - 1:\n        delta_pressure = np.flip(delta_pressure)")],'decreasing levels, some below the surface','thicknesses come back in reversed order','''
r = gc.delta_pressure(np.array([1000., 900, 500, 300, 100]), 700., 50.)
assert np.isnan(r[0]) and np.isfinite(r[-1]), r
''')
# ---- C23
ZS='''
import sys, types
class UxDA(xr.DataArray):
    __slots__ = ()
    def __new__(cls, *a, uxgrid=None, **k):
        return a[0]
ux = types.ModuleType('uxarray'); ux.UxDataArray = UxDA; sys.modules['uxarray'] = ux
xr.DataArray.zonal_mean = lambda self, lat=None: self.rename({'n_face': 'latitudes'}).assign_coords(latitudes=[0., 0.])
def mk(plev, extra=None):
    v = xr.DataArray(np.random.RandomState(0).rand(1, len(plev), 2), dims=['time', 'plev', 'n_face'], coords={'plev': plev}, attrs={'standard_name': 'northward_wind'})
    p = xr.DataArray(np.full((1, 2), 100000.), dims=['time', 'n_face'], attrs={'standard_name': 'surface_air_pressure'})
    return xr.Dataset({'vv': v, 'pp': p, **(extra or {})})
K = 2 * np.pi * 6378137 / 9.80665
'''
b('C23a','C23',M,[("        da_mpsi = integrand.cumsum(dim=\"plev\").isel({\"plev\": slice(None, None, -1)})","        da_mpsi = integrand.cumsum(dim=\"plev\")")],'levels from the surface up','the streamfunction is returned upside down','''
ds = mk([90000., 50000., 10000.])
r = gc.zonal_meridional_psi(ds, plev_coordname='plev', meridional_wind_varname='vv', surface_air_pressure_varname='pp')
d = gc.delta_pressure(np.array([90000., 50000., 10000.]), 100000.)
w = np.cumsum((ds.vv[0, :, 0].values * d)[::-1])[::-1] * K
assert np.allclose(r.isel(time=0, latitudes=0).values.ravel(), w), (r, w)
''',ZS)
b('C23b','C23',M,[("    if not surface_air_pressure_varname:\n","    if surface_air_pressure_varname:\n        _find_var(uxds, possible_names=[surface_air_pressure_varname])\n    if True:\n")],'an explicit surface pressure variable','the caller\'s choice of surface pressure is overridden','''
ds = mk([10000., 50000., 90000.], {'mine': xr.DataArray(np.full((1, 2), 95000.), dims=['time', 'n_face'])})
r = gc.zonal_meridional_psi(ds, plev_coordname='plev', surface_air_pressure_varname='mine')
d = gc.delta_pressure(np.array([10000., 50000., 90000.]), 95000.)
w = np.cumsum(ds.vv[0, :, 0].values * d) * K
assert np.allclose(r.transpose('time', 'plev', 'latitudes')[0, :, 0], w), (r, w)
''',ZS)
# ---- C24
FF='''
def one(f, n=40, **k):
    x = np.cos(2 * np.pi * f * np.arange(n) / n)
    return float(np.abs(gc.fourier_filter(x, n, **k)).max())
'''
b('C24a','C24',F,[("        elif cfh_index > 1:\n            res_fft[cfhn_index:]","        elif cfh_index > 2:\n            res_fft[cfhn_index:]")],'a blocked band that starts at zero and ends at the second harmonic','the negative frequencies of the band are kept','''
assert one(1, cutoff_frequency_low=0, cutoff_frequency_high=2, band_block=True) < 1e-9
''',FF)
b('C24b','C24',F,[("        if cfl_index > 1:\n            res_fft[cfl_index:cfln_index]","        if cfl_index > 2:\n            res_fft[cfl_index:cfln_index]")],'a low pass that keeps two harmonics','half of the amplitude is lost','''
assert abs(one(1, cutoff_frequency_low=2, low_pass=True) - 1) < 1e-9
''',FF)
b('C24c','C24',F,[("        if cfh_index > 1:\n            res_fft[cfh_index:cfhn_index]","        if cfh_index > cfl_index:\n            res_fft[cfh_index:cfhn_index]")],'a band pass up to the first harmonic','...','''
assert one(5, cutoff_frequency_low=0, cutoff_frequency_high=1, band_pass=True) < 1e-9
x = np.full(40, 2.0)
assert np.allclose(gc.fourier_filter(x, 40, cutoff_frequency_low=0, cutoff_frequency_high=1, band_pass=True), 2)
''',FF)
# ---- C25
b('C25a','C25',P,[("    scale_val = np.array(\n        (1 / (np.sum(scale, axis=(0, 1)) * sph_harm_y(0, 0, 0, 0) ** 2))","    scale_val = np.array(\n        (1 / (np.sum(scale, axis=(0, 1)) * sph_harm_y(0, 0, 0, 0)))")],'any use','coefficients are scaled by the magnitude of the first harmonic once instead of twice','''
th = np.linspace(0, 2 * np.pi, 37); ph = np.linspace(0, np.pi, 19)
th, ph = np.meshgrid(th[:-1], ph)
r = gc.decomposition(np.ones(th.shape), np.sin(ph), th, ph, max_harm=1)
assert abs(r[0] - np.sqrt(4 * np.pi)) < 1e-6, r
''')
b('C25b','C25',P,[("    results = np.sum(np.multiply(harmonics.real, data.real), axis=0) + np.sum(","    results = np.sum(np.multiply(harmonics.real, data.real), axis=0) - np.sum(")],'a field with non-zonal structure','the imaginary parts are subtracted','''
th = np.linspace(0, 2 * np.pi, 37); ph = np.linspace(0, np.pi, 19)
th, ph = np.meshgrid(th[:-1], ph)
f = np.sin(ph) * np.sin(th)
r = gc.recomposition(gc.decomposition(f, np.sin(ph), th, ph, max_harm=2), th, ph, max_harm=2)
assert np.abs(r - f).max() < 0.05
''')
# ---- C26
EO='''
d = np.random.RandomState(0).rand(12, 5)
'''
b('C26a','C26',S,[("    attrs['northTest'] = solver.northTest(neigs=neofs, vfscaled=vfscaled)","    attrs['northTest'] = solver.northTest(neigs=neofs)")],'vfscaled=True','typical errors are not scaled','''
a = gc.eofunc_eofs(d, 2, vfscaled=True).attrs['northTest']; b = gc.eofunc_eofs(d, 2).attrs['northTest']
assert not np.allclose(a, b)
''',EO)
b('C26b','C26',S,[("    pcs = solver.pcs(npcs=npcs, pcscaling=pcscaling)\n","    pcs = solver.pcs(npcs=npcs)\n")],'pcscaling','principal components are not scaled','''
a = gc.eofunc_pcs(d, 2, pcscaling=1)
assert np.allclose(np.std(a.values, axis=1, ddof=1), 1), np.std(a.values, axis=1, ddof=1)
''',EO)
b('C26c','C26',S,[("    solver = Eof(data, weights=weights, center=center, ddof=ddof)\n\n    return data, solver","    solver = Eof(data, weights=weights, center=center)\n\n    return data, solver")],'ddof other than 1','eigenvalues are always normalised with ddof=1','''
a = gc.eofunc_eofs(d, 1, ddof=0).attrs['eigenvalues'].values; b = gc.eofunc_eofs(d, 1, ddof=1).attrs['eigenvalues'].values
assert np.allclose(a * 12, b * 11), (a, b)
''',EO)
# ---- C27
NM='''
def grid(v):
    return xr.DataArray(v, dims=['lat', 'lon'], coords={'lat': ('lat', [-30., 0, 30], {'standard_name': 'latitude', 'units': 'degrees_north'}), 'lon': ('lon', [0., 10, 20], {'standard_name': 'longitude', 'units': 'degrees_east'})})
o = np.random.RandomState(0).rand(3, 3); m = np.random.RandomState(1).rand(3, 3)
def ref(o, m):
    w = np.cos(np.deg2rad(np.array([-30., 0, 30])))[:, None] * np.ones((3, 3)); w = np.where(np.isnan(o) | np.isnan(m), 0, w); o = np.nan_to_num(o); m = np.nan_to_num(m)
    mu = (w * o).sum() / w.sum()
    return (w * (m - o)**2).sum() / (w * (o - mu)**2).sum()
'''
b('C27b','C27',S,[("    observed_w = observed.weighted(weights).mean(dim=spatial_dims)","    observed_w = observed.where(weights != 0).mean(dim=spatial_dims)")],'fields that vary with latitude','the variance is taken about the unweighted mean','''
assert np.allclose(gc.nmse(grid(o), grid(m)), ref(o, m))
''',NM)
b('C27c','C27',S,[("    denom = (observed - observed_w) ** 2\n","    denom = (modeled - observed_w) ** 2\n")],'any use','the error is normalised by the spread of the model','''
assert np.allclose(gc.nmse(grid(o), grid(m)), ref(o, m))
''',NM)
# ---- C28
b('C28a','C28',S,[("            if weights is not None:\n                weights = np.ravel(weights)\n","")],'two-dimensional arrays with weights and no axis','weights are not flattened with the data','''
a = np.random.RandomState(0).rand(3, 4); b = np.random.RandomState(1).rand(3, 4); w = np.random.RandomState(2).rand(3, 4)
r = float(gc.pearson_r(a, b, weights=w))
ma = (w * a).sum() / w.sum(); mb = (w * b).sum() / w.sum()
e = (w * (a - ma) * (b - mb)).sum() / np.sqrt((w * (a - ma)**2).sum() * (w * (b - mb)**2).sum())
assert abs(r - e) < 1e-9, (r, e)
''')
b('C28b','C28',S,[("            return xs_internal._pearson_r(a, b, weights, axis, skipna)","            return xs_internal._pearson_r(a, b, weights, axis, False)")],'numpy input with NaN and skipna=True','skipna is ignored for arrays','''
a = np.array([1., 2, 3, np.nan, 5]); b = np.array([1., 2, 2.5, 4, 6])
assert np.isfinite(gc.pearson_r(a, b, axis=0, skipna=True))
''')
b('C28c','C28',S,[("        if axis is None:  # squash array","        if not axis:  # squash array")],'axis=0','axis 0 is treated as no axis at all','''
a = np.random.RandomState(0).rand(5, 3); b = np.random.RandomState(1).rand(5, 3)
assert np.shape(gc.pearson_r(a, b, axis=0)) == (3,)
''')
# ---- C29
b('C29b','C29',U,[("            ' '.join(word.capitalize() for word in long_name.split(' ')),\n","            ' '.join(word.capitalize() for word in long_name.split('_')),\n")],'a long name written in title case','"Surface Pressure" is no longer recognised','''
from geocat.comp.gc_util import _find_var
ds = xr.Dataset({'q': ('x', [1.], {'long_name': 'Surface Pressure'})})
assert _find_var(ds, long_name='surface pressure') == 'q'
''')
# ---- C30..C35
b('C30b','C30',N,[("    zonal_mpsi,\n","")],'import of zonal_mpsi from the package','a documented function is no longer exported','''
gc.zonal_mpsi
''')
b('C32a','C32',D,[("def rcm2points(*args, **kwargs):","def rcm2points(*args):")],'keyword arguments','the stub raises TypeError for keyword arguments instead of warning','''
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    assert gc.rcm2points(1, opt=2) is None
assert w
''')
b('C33a','C33',M,[("        dew_pnt_temp.attrs['units'] = 'Kelvin'","        dew_pnt_temp.attrs.setdefault('units', 'Kelvin')")],'inputs that carry a units attribute and keep_attrs=True','the unit of the input (K, %) may stay on the result','''
t = xr.DataArray(np.array([290.]), dims=['x'], attrs={'units': 'degC'}); h = xr.DataArray(np.array([50.]), dims=['x'], attrs={'units': '%'})
with xr.set_options(keep_attrs=True):
    assert gc.dewtemp(t, h).attrs['units'] == 'Kelvin'
''')
b('C33b','C33',M,[("        svp_slope.attrs['units'] = \"kPa/C\"","        svp_slope.attrs['units'] = \"kPa\"")],'any DataArray','the slope is labelled as a pressure','''
assert gc.saturation_vapor_pressure_slope(xr.DataArray(np.array([60.]), dims=['x'])).attrs['units'] == 'kPa/C'
''')
b('C34a','C34',M,[("        dew_pnt_temp = _dewtemp(temperature, relative_humidity)\n\n        # set xarray attributes","        dew_pnt_temp = _dewtemp(temperature, relative_humidity.fillna(0).load())\n\n        # set xarray attributes")] if False else [("        # calculate svp\n        svp = xr.where(\n            temp_c > 0,","        # calculate svp\n        svp = xr.where(\n            temp_c.values > 0,")],'dask input','the temperature is computed eagerly','''
import dask.array as da
n = []
x = da.from_array(np.array([60., 70]), chunks=1).map_blocks(lambda a: (n.append(1), a)[1], dtype=float, meta=np.array(()))
r = gc.saturation_vapor_pressure(xr.DataArray(x, dims=['x']))
assert not n, n
''')
b('C35a','C35',U,[("    except KeyError:\n        return None","    except Exception:\n        return None")],'an argument of the wrong type','any error in the optional lookup is swallowed','''
from geocat.comp.gc_util import _find_optional_var
try:
    _find_optional_var(xr.Dataset({'q': ('x', [1.])}), standard_name=5)
except AttributeError:
    pass
else:
    raise SystemExit(1)
''')
