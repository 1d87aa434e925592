"""Reference definitions for the meteorology functions (never imported, only analysed)."""
import numpy as np
import warnings
import xarray as xr

TABLE = np.asarray(
        [
            0.01403, 0.01719, 0.02101, 0.02561, 0.03117, 0.03784, 0.04584, 0.05542, 0.06685, 0.08049, 0.09672, 0.1160,
            0.1388, 0.1658, 0.1977, 0.2353, 0.2796, 0.3316, 0.3925, 0.4638, 0.5472, 0.6444, 0.7577, 0.8894, 1.042,
            1.220, 1.425, 1.662, 1.936, 2.252, 2.615, 3.032, 3.511, 4.060, 4.688, 5.406, 6.225, 7.159, 8.223, 9.432,
            10.80, 12.36, 14.13, 16.12, 18.38, 20.92, 23.80, 27.03, 30.67, 34.76, 39.35, 44.49, 50.26, 56.71, 63.93,
            71.98, 80.97, 90.98, 102.1, 114.5, 128.3, 143.6, 160.6, 179.4, 200.2, 223.3, 248.8, 276.9, 307.9, 342.1,
            379.8, 421.3, 466.9, 517.0, 572.0, 632.3, 698.5, 770.9, 850.2, 937.0, 1032.0, 1146.6, 1272.0, 1408.1,
            1556.7, 1716.9, 1890.3, 2077.6, 2279.6, 2496.7, 2729.8, 2980.0, 3247.8, 3534.1, 3839.8, 4164.8, 4510.5,
            4876.9, 5265.1, 5675.2, 6107.8, 6566.2, 7054.7, 7575.3, 8129.4, 8719.2, 9346.50, 10013.0, 10722.0, 11474.0,
            12272.0, 13119.0, 14017.0, 14969.0, 15977.0, 17044.0, 18173.0, 19367.0, 20630.0, 21964.0, 23373.0, 24861.0,
            26430.0, 28086.0, 29831.0, 31671.0, 33608.0, 35649.0, 37796.0, 40055.0, 42430.0, 44927.0, 47551.0, 50307.0,
            53200.0, 56236.0, 59422.0, 62762.0, 66264.0, 69934.0, 73777.0, 77802.0, 82015.0, 86423.0, 91034.0, 95855.0,
            100890.0, 106160.0, 111660.0, 117400.0, 123400.0, 129650.0, 136170.0, 142980.0, 150070.0, 157460.0,
            165160.0, 173180.0, 181530.0, 190220.0, 199260.0, 208670.0, 218450.0, 228610.0, 239180.0, 250160.0,
            261560.0, 273400.0, 285700.0, 298450.0, 311690.0, 325420.0, 339650.0, 354410.0, 369710.0, 385560.0,
            401980.0, 418980.0, 436590.0, 454810.0, 473670.0, 493170.0, 513350.0, 534220.0, 555800.0, 578090.0,
            601130.0, 624940.0, 649530.0, 674920.0, 701130.0, 728190.0, 756110.0, 784920.0, 814630.0, 845280.0,
            876880.0, 909450.0, 943020.0, 977610.0, 1013250.0, 1049940.0, 1087740.0, 1087740.0
        ])


def same_shape(*arrays):
    for a in arrays[1:]:
        if np.shape(a) != np.shape(arrays[0]):
            raise ValueError("shapes differ")


# ------------------------------------------------------------------ dew point
def dewtemp(temperature, relative_humidity):
    """Dutton (1976): inverse of the Clausius-Clapeyron relation, K and percent"""
    same_shape(temperature, relative_humidity)
    xa, xb = isinstance(temperature, xr.DataArray), isinstance(relative_humidity, xr.DataArray)
    if xa != xb:
        raise TypeError("mixed")
    if not xa:
        temperature = np.asarray(temperature)
        relative_humidity = np.asarray(relative_humidity)
    lhv = (597.3 - 0.57 * (temperature - 273)) / (461.5 / (1000 * 4.186))
    return temperature * lhv / (lhv - temperature * np.log(relative_humidity * 0.01))


# ------------------------------------------------------------------ heat index
def heat_index(temperature, relative_humidity, alternate_coeffs=False):
    kt, kr = type(temperature), type(relative_humidity)
    if kt != kr:
        raise TypeError("mixed")
    islist = not isinstance(temperature, (np.ndarray, xr.DataArray))
    if islist:
        temperature = np.asarray(temperature)
        relative_humidity = np.asarray(relative_humidity)
    if temperature.shape != relative_humidity.shape:
        raise ValueError("shape")
    t, r = temperature, relative_humidity
    if r.min() < 0 or r.max() > 100:
        raise ValueError("range")
    if r.max() <= 1:
        warnings.warn("fraction")
    if alternate_coeffs:
        full = (0.363445176 + 0.988622465 * t + 4.777114035 * r - 0.114037667 * t * r - 0.000850208 * t * t
                - 0.020716198 * r * r + 0.000687678 * t * t * r + 0.000274954 * t * r * r)
        crit = 70
    else:
        full = (-42.379 + 2.04901523 * t + 10.14333127 * r - 0.22475541 * t * r - 0.00683783 * t * t
                - 0.05481717 * r * r + 0.00122874 * t * t * r + 0.00085282 * t * r * r - 0.00000199 * t * t * r * r)
        crit = 79
    simple = 0.5 * (t + 61 + 1.2 * (t - 68) + 0.094 * r)
    hi = xr.where(t < 40, t, simple)
    hi = xr.where(hi >= crit, full, hi)
    dry = (r <= 13) & (t >= 80) & (t <= 112)
    hi = xr.where(dry, hi - (13 - r) / 4 * np.sqrt(abs(17 - abs(t - 95)) / 17), hi)
    wet = (r > 85) & (t >= 80) & (t <= 87)
    hi = xr.where(wet, hi + (r - 85) / 10 * (87 - t) / 5, hi)
    if islist:
        return hi.tolist()
    return hi


# ------------------------------------------------------------------ relative humidity
def relhum(temperature, mixing_ratio, pressure):
    same_shape(temperature, mixing_ratio, pressure)
    if not hasattr(temperature, 'clip'):
        temperature = np.asarray(temperature)
    t = temperature.clip(173.16, 375.16)
    i = xr.where(np.isnan(t), 0, t - 173.16).astype(int)
    lower = 173.16 + i
    es = 0.1 * ((lower + 1 - t) * TABLE[i] + (t - lower) * TABLE[i + 1])
    rh = 100 * mixing_ratio * (pressure - 0.378 * es) / (0.622 * es)
    return rh.clip(0.0001, None)


def _rh(kind, t, w, p):
    if kind == 'ice':
        e = 6.1128 * np.exp(22.571 * (t - 273.15) / (t - 273.15 + 273.71))
    else:
        e = 6.1128 * np.exp(17.269 * (t - 273.15) / (t - 35.86))
    q = 0.622 * e / (0.01 * p - 0.378 * e)
    return 100 * w / q


def _relhum_over(kind, temperature, mixing_ratio, pressure):
    if type(temperature) != type(mixing_ratio) or type(temperature) != type(pressure):
        raise TypeError("mixed")
    islist = not isinstance(temperature, (np.ndarray, xr.DataArray))
    if islist:
        temperature = np.asarray(temperature)
        mixing_ratio = np.asarray(mixing_ratio)
        pressure = np.asarray(pressure)
    if temperature.shape != mixing_ratio.shape or temperature.shape != pressure.shape:
        raise ValueError("shape")
    rh = _rh(kind, temperature, mixing_ratio, pressure)
    if isinstance(temperature, xr.DataArray):
        return xr.DataArray(data=rh, coords=temperature.coords, dims=temperature.dims, attrs=temperature.attrs)
    if islist:
        return rh.tolist()
    return rh


def relhum_ice(temperature, mixing_ratio, pressure):
    return _relhum_over('ice', temperature, mixing_ratio, pressure)


def relhum_water(temperature, mixing_ratio, pressure):
    return _relhum_over('water', temperature, mixing_ratio, pressure)


# ------------------------------------------------------------------ FAO-56
def max_daylight(jday, lat):
    x = isinstance(jday, xr.DataArray)
    if not xr.core.utils.is_duck_array(jday):
        jday = np.asarray(jday, dtype='float32')
    if not xr.core.utils.is_duck_array(lat):
        lat = np.asarray(lat, dtype='float32')
    if lat.ndim > 1 or jday.ndim > 1:
        raise ValueError("ndim")
    a = abs(lat)
    if (a > 66).all():
        warnings.warn("impossible")
    elif (a > 55).all() and (a <= 66).all():
        warnings.warn("limited")
    decl = 0.409 * np.sin(2 * np.pi / 365 * jday - 1.39)
    ws = np.arccos(np.outer(-np.tan(lat * np.pi / 180), np.tan(decl)))
    n = np.transpose(24 / np.pi * ws)
    if x:
        return xr.DataArray(n, coords=[jday, lat], dims=["doy", "lat"])
    return n


def psychrometric_constant(pressure):
    if not isinstance(pressure, xr.DataArray):
        pressure = np.asarray(pressure)
    return 0.00066474 * pressure


def _celsius(f):
    if not isinstance(f, xr.DataArray):
        f = np.asarray(f)
    return (f - 32) / 1.8


def saturation_vapor_pressure(temperature, tfill=np.nan):
    c = _celsius(temperature)
    return xr.where(c > 0, 0.6108 * np.exp(17.27 * c / (c + 237.3)), tfill)


def actual_saturation_vapor_pressure(tdew, tfill=np.nan):
    c = _celsius(tdew)
    return xr.where(c > 0, 0.6108 * np.exp(17.27 * c / (c + 237.3)), tfill)


def saturation_vapor_pressure_slope(temperature, tfill=np.nan):
    c = _celsius(temperature)
    return xr.where(c > 0, 4096 * 0.6108 * np.exp(17.27 * c / (c + 237.3)) / (c + 237.3) ** 2, tfill)


# ------------------------------------------------------------------ pressure layer thickness
def _column(p, ps, ptop):
    """NCL dpres_plev: layers bounded by the midpoints between levels, the model top and the surface"""
    if ptop < 0:
        raise ValueError("negative top")
    if ptop > ps:
        raise ValueError("surface above top")
    if np.isnan(ps):
        return np.full_like(p, np.nan, dtype=float)
    decreasing = p[1] < p[0]
    if decreasing:
        p = np.flip(p)
    dp = np.full_like(p, np.nan, dtype=float)
    half = np.array((p + np.roll(p, shift=1)) / 2.0)
    half[0] = 0.0
    [inside] = np.nonzero(half < ps)
    s, e = min(inside), max(inside)
    dp[s] = (p[s] + p[s + 1]) / 2 - ptop
    dp[s + 1:e] = [(below - above) / 2 for below, above in zip(p[s + 2:e + 1], p[s:e])]
    dp[e] = ps - (p[e] + p[e - 1]) / 2
    if s == e:
        dp[s] = ps - ptop
    if decreasing:
        dp = np.flip(dp)
    return dp


def delta_pressure(pressure_lev, surface_pressure, pressure_top=None):
    isxr = isinstance(surface_pressure, xr.DataArray)
    lev = pressure_lev
    if not isinstance(lev, (xr.DataArray, np.ndarray)):
        lev = np.asarray(lev)
    if pressure_top is None:
        pressure_top = lev.min()
    elif pressure_top > lev.min():
        raise ValueError("top below highest level")
    if np.isscalar(surface_pressure):
        return _column(lev, surface_pressure, pressure_top)
    out = np.array([_column(lev, ps, pressure_top) for ps in np.ravel(surface_pressure)])
    out = out.reshape(surface_pressure.shape + (len(lev),))
    if isxr:
        coords = dict(surface_pressure.coords)
        coords['lev'] = lev.values if isinstance(lev, xr.DataArray) else lev
        out = xr.DataArray(out, coords=coords, dims=surface_pressure.dims + ('lev',), name='delta pressure')
    return out


def dpres_plev(pressure_lev, surface_pressure, pressure_top=None):
    return delta_pressure(pressure_lev, surface_pressure, pressure_top)


def dpres_plev_fwd(pressure_lev, surface_pressure, pressure_top=None):
    import geocat.comp as gc
    return gc.delta_pressure(pressure_lev=pressure_lev, surface_pressure=surface_pressure, pressure_top=pressure_top)
