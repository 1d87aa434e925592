"""Hand-made behaviour-preserving rewrites: missing values handled in other words."""
R = []
def r(i, f, e): R.append((i, 'geocat/comp/' + f, e))
M, C, I, U, D, S = 'meteorology.py', 'climatologies.py', 'interpolation.py', 'gc_util.py', 'deprecated.py', 'stats.py'
IT = "    it = xr.where(np.isnan(temperature), 0, temperature - mintemp).astype(int)\n"
r('v01', M, [(IT, "    known = ~np.isnan(temperature)\n    it = xr.where(known, temperature - mintemp, 0).astype(int)\n")])
r('v02', M, [(IT, "    it = xr.where(temperature == temperature, temperature - mintemp, 0).astype(int)\n")])
r('v03', M, [(IT, "    offset = temperature - mintemp\n    it = xr.where(offset >= 0, offset, 0).astype(int)\n")])
r('v04', M, [("    if np.isnan(surface_pressure):\n        return np.full_like(pressure_lev, np.nan, dtype=float)\n", "    if surface_pressure != surface_pressure:\n        return np.full_like(pressure_lev, np.nan, dtype=float)\n")])
r('v05', M, [("    if relative_humidity.min() < 0 or relative_humidity.max() > 100:", "    if (relative_humidity < 0).any() or (relative_humidity > 100).any():")])
r('v06', M, [("    relative_humidity = relative_humidity.clip(0.0001, None)", "    relative_humidity = np.maximum(relative_humidity, 0.0001)")])
r('v07', M, [("    relative_humidity = relative_humidity.clip(0.0001, None)", "    relative_humidity = xr.where(relative_humidity < 0.0001, 0.0001, relative_humidity)")])
