"""Fifth table of planted bugs: missing values that turn into numbers, or into errors (see seed.py)."""
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py')).read().split('BUGS={}')[0])
BUGS={}
def b(i,prop,f,edits,needs,breaks,demo,ts=''):
    BUGS[i]=(prop,f,edits,needs,breaks,H+ts+demo)
b('C41a','C41',M,[("    if relative_humidity.min() < 0 or relative_humidity.max() > 100:","    if not ((relative_humidity >= 0) & (relative_humidity <= 100)).all():")],
  'a missing relative humidity in an array','one missing humidity makes heat_index refuse the whole array','''
r = gc.heat_index(np.array([104., 100.]), np.array([55., np.nan]))
assert np.isnan(r[1]) and not np.isnan(r[0]), r
''')
b('C41b','C41',M,[("    relative_humidity = relative_humidity.clip(0.0001, None)","    relative_humidity = np.fmax(relative_humidity, 0.0001)")],
  'a missing mixing ratio or pressure','a missing input gives a relative humidity of 0.0001 %','''
r = gc.relhum(np.array([280., 290.]), np.array([.002, np.nan]), np.array([1e5, 9e4]))
assert np.isnan(r[1]) and not np.isnan(r[0]), r
''')
b('C41c','C41',M,[("    dlm = np.transpose(con * ws)\n","    dlm = np.nan_to_num(np.transpose(con * ws))\n")],
  'a missing day or latitude','a missing latitude has no daylight','''
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    r = gc.max_daylight(np.array([10., 200.]), np.array([np.nan, 40., -20.]))
assert np.isnan(r[:, 0]).all() and not np.isnan(r[:, 1:]).any(), r
''')
b('C41d','C41',I,[("    # Results in Pa\n    # p(k) = hya(k) * p0 + hyb(k) * psfc\n    return hya * p0 + hyb * psfc","    # Results in Pa\n    # p(k) = hya(k) * p0 + hyb(k) * psfc\n    if isinstance(psfc, xr.DataArray):\n        psfc = psfc.fillna(p0)\n    return hya * p0 + hyb * psfc")],
  'a masked cell of the surface pressure','the reference pressure stands in for a missing surface pressure','''
q = ps.copy(); q[0, 1] = np.nan
r = gc.pressure_at_hybrid_levels(q, hyam, hybm)
assert np.isnan(r.sel(lon=1)).all() and not np.isnan(r.sel(lon=[0, 2])).any(), r
''',HY)
b('C41e','C41',M,[("    tdk = tk * lhv / (lhv - tk * np.log(rh * 0.01))","    tdk = np.fmin(tk * lhv / (lhv - tk * np.log(rh * 0.01)), tk)")],
  'a missing relative humidity','the dew point of a missing humidity is the temperature','''
r = gc.dewtemp(np.array([280., 290.]), np.array([50., np.nan]))
assert np.isnan(r[1]) and not np.isnan(r[0]), r
''')
