From f39017928947c0cd82c7878111ae4da88e4295bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 01/18] fix: check the shapes of the inputs of dewtemp and
 relhum

The condition tested the truth of a generator object, which is always true,
so inputs of different shapes were never rejected.
---
 geocat/comp/meteorology.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index eea45c9..7bae095 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -283,7 +283,7 @@ def dewtemp(
     inputs = [temperature, relative_humidity]
 
     # ensure all inputs same size
-    if not (np.shape(x) == np.shape(inputs[0]) for x in inputs):
+    if not all(np.shape(x) == np.shape(inputs[0]) for x in inputs):
         raise ValueError("dewtemp: dimensions of inputs are not the same")
 
     # Get input types
@@ -562,7 +562,7 @@ def relhum(
     inputs = [temperature, mixing_ratio, pressure]
 
     # ensure all inputs same size
-    if not (np.shape(x) == np.shape(inputs[0]) for x in inputs):
+    if not all(np.shape(x) == np.shape(inputs[0]) for x in inputs):
         raise ValueError("relhum: dimensions of inputs are not the same")
 
     if not hasattr(temperature, 'clip'):
-- 
2.43.0


From 83178714bd8e960e4880309053e456f82997cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 02/18] fix: use exception tuples in the except clauses of
 heat_index and relhum_*

'except [A, B]' raises TypeError instead of handling the error.
---
 geocat/comp/meteorology.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 7bae095..2789868 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -388,7 +388,7 @@ def heat_index(
         try:
             temperature = np.asarray(temperature)
             relative_humidity = np.asarray(relative_humidity)
-        except [ValueError, TypeError] as e:
+        except (ValueError, TypeError) as e:
             raise TypeError(f"heat_index: cannot convert input to numpy array, {e}")
 
     # ensure all inputs same size
@@ -659,7 +659,7 @@ def relhum_ice(
             temperature = np.asarray(temperature)
             mixing_ratio = np.asarray(mixing_ratio)
             pressure = np.asarray(pressure)
-        except [ValueError, TypeError] as e:
+        except (ValueError, TypeError) as e:
             raise TypeError(f"relhum_ice: cannot convert input to numpy array, {e}")
 
     # If xarray input, pull data and store metadata
@@ -757,7 +757,7 @@ def relhum_water(
             temperature = np.asarray(temperature)
             mixing_ratio = np.asarray(mixing_ratio)
             pressure = np.asarray(pressure)
-        except [ValueError, TypeError] as e:
+        except (ValueError, TypeError) as e:
             raise TypeError(f"relhum_water: cannot convert input to numpy array, {e}")
 
     # If xarray input, pull data and store metadata
-- 
2.43.0


From eb5c25d471c20f6833c321fa418010efb6555752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:11 +0000
Subject: [PATCH 03/18] fix: return a list from relhum_water for list input, as
 documented and as relhum_ice does

---
 geocat/comp/meteorology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 2789868..ba855e0 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -780,6 +780,10 @@ def relhum_water(
             data=relative_humidity, coords=save_coords, dims=save_dims, attrs=save_attrs
         )
 
+    # if elevated to np array, return to original type
+    if in_types[0] in {list, float, int} and isinstance(relative_humidity, np.ndarray):
+        relative_humidity = relative_humidity.tolist()
+
     return relative_humidity
 
 
-- 
2.43.0


From 6717a77c112a196f419afa2998398cd61362fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:18 +0000
Subject: [PATCH 04/18] fix: filter along time_axis other than 0

The frequency resolution was computed from the length of the first axis before
the axes were swapped, and a DataArray result was assembled in the swapped
shape, so filtering along any other axis was wrong or failed.
---
 geocat/comp/fourier_filters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/fourier_filters.py b/geocat/comp/fourier_filters.py
index 9a663bf..dbe8ca3 100644
--- a/geocat/comp/fourier_filters.py
+++ b/geocat/comp/fourier_filters.py
@@ -126,9 +126,9 @@ def fourier_filter(
     >>> axs[1].plot(np.imag(no_tide)[start:end])
     >>> fig.show()
     """
-    resolution = frequency / len(signal)
-    signal = np.swapaxes(signal, time_axis, 0)
-    res_fft = np.fft.fft(signal, axis=0)
+    data = np.swapaxes(np.asarray(signal), time_axis, 0)
+    resolution = frequency / len(data)
+    res_fft = np.fft.fft(data, axis=0)
     cfl_index = m.floor(cutoff_frequency_low / resolution)
     cfln_index = 1 - cfl_index
     cfh_index = m.ceil(cutoff_frequency_high / resolution)
-- 
2.43.0


From 13d11aec4b3d0fef540fa31f403c043a708714e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 05/18] fix: return a DataArray from scale_voronoi for
 DataArray input

theta was converted to numpy before its type was tested, so the DataArray
branch could never be taken.
---
 geocat/comp/spherical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/spherical.py b/geocat/comp/spherical.py
index 35450f6..2c1e9f3 100644
--- a/geocat/comp/spherical.py
+++ b/geocat/comp/spherical.py
@@ -223,7 +223,9 @@ def scale_voronoi(
         2-dimensional array containing the area of the spherical voronoi cell for each ``theta`` and ``phi`` pair.
     """
 
+    out_dims = None
     if type(theta) is xr.DataArray:
+        out_dims = theta.dims
         theta = theta.to_numpy()
         phi = phi.to_numpy()
 
@@ -243,7 +245,7 @@ def scale_voronoi(
         ).calculate_areas()
     ).reshape(theta.shape)
 
-    if type(theta) is xr.DataArray:
-        scale = xr.DataArray(scale, dims=theta.dims)
+    if out_dims is not None:
+        scale = xr.DataArray(scale, dims=out_dims)
 
     return scale
-- 
2.43.0


From c55ffcddee4579ee38335c4513fc78a1a4f6d828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 06/18] fix: do not write the EOF attributes into the caller's
 data

With meta=True, eofunc_eofs stored the eigenvalues etc. in data.attrs.
---
 geocat/comp/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 3b9f484..63d7f4e 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -385,7 +385,7 @@ def eofunc_eofs(
     attrs = {}
 
     if meta:
-        attrs = data.attrs
+        attrs = dict(data.attrs)
 
     attrs['eigenvalues'] = solver.eigenvalues(neigs=neofs)
     attrs['northTest'] = solver.northTest(neigs=neofs, vfscaled=vfscaled)
@@ -512,7 +512,7 @@ def eofunc_pcs(
     attrs = {}
 
     if meta:
-        attrs = data.attrs
+        attrs = dict(data.attrs)
 
     dims = ["pc", "time"]
     if meta:
-- 
2.43.0


From a3dc197a5f1368caac5c199ccf1743bdce62ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 07/18] fix: accept Datasets in pearson_r, as documented

They were sent to the numpy branch, where they cannot be raveled.
---
 geocat/comp/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 63d7f4e..b5891d2 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -183,7 +183,8 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
         Pearson's correlation coefficient
     """
     # if a and v are not xr.DataArrays
-    if not isinstance(a, xr.DataArray) and not isinstance(b, xr.DataArray):
+    xr_types = (xr.DataArray, xr.Dataset)
+    if not isinstance(a, xr_types) and not isinstance(b, xr_types):
         if (dim is not None) and (axis is not None):
             warnings.warn(
                 "The `dim` keyword is unused with non xarray.DataArray inputs"
-- 
2.43.0


From e33d42c0fc42b48efee24f217af72006cd427a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 08/18] fix: raise ValueError in pearson_r instead of printing
 and returning None

---
 geocat/comp/stats.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index b5891d2..05e1397 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -197,15 +197,19 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
                 weights = np.ravel(weights)
         try:
             return xs_internal._pearson_r(a, b, weights, axis, skipna)
-        except ValueError:
-            print('Data along `axis` must have the same dimension as `weights`')
+        except ValueError as e:
+            raise ValueError(
+                'Data along `axis` must have the same dimension as `weights`'
+            ) from e
     else:  # if a and b are xr.DataArrays
         if (dim is not None) and (axis is not None):
             warnings.warn("The `axis` keyword is unused with xarray.DataArray inputs")
         try:
             return xs.pearson_r(a, b, dim, weights, skipna, keep_attrs)
-        except ValueError:
-            print('Data along `dim` must have the same dimension as `weights`')
+        except ValueError as e:
+            raise ValueError(
+                'Data along `dim` must have the same dimension as `weights`'
+            ) from e
 
 
 def _generate_eofs_solver(data, time_dim=0, weights=None, center=True, ddof=1):
-- 
2.43.0


From a0367dcf11ec2d3dc3b76a5d8705d94c8fa1af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 09/18] fix: negative time_dim and meta=True for array input in
 eofunc_eofs/eofunc_pcs

---
 geocat/comp/stats.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 05e1397..d894ffe 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -224,11 +224,7 @@ def _generate_eofs_solver(data, time_dim=0, weights=None, center=True, ddof=1):
             raise ValueError("ERROR eofunc_efs: `time_dim` out of bound.")
 
         # Transpose data if time_dim is not 0 (i.e. the first/left-most dimension)
-        dims_to_transpose = np.arange(data.ndim).tolist()
-        dims_to_transpose.insert(
-            0, dims_to_transpose.pop(dims_to_transpose.index(time_dim))
-        )
-        data = np.transpose(data, axes=dims_to_transpose)
+        data = np.moveaxis(data, time_dim, 0)
 
         dims = [f"dim_{i}" for i in range(data.ndim)]
         dims[0] = 'time'
@@ -374,9 +370,12 @@ def eofunc_eofs(
     `eofunc_n <https://www.ncl.ucar.edu/Document/Functions/Built-in/eofunc_n.shtml>`__,
     `eofunc_n_Wrap <https://www.ncl.ucar.edu/Document/Functions/Contributed/eofunc_n_Wrap.shtml>`__
     """
+    is_xr = isinstance(data, xr.DataArray)
     data, solver = _generate_eofs_solver(
         data, time_dim=time_dim, weights=weights, center=center, ddof=ddof
     )
+    # a negative time_dim counts from the end
+    time_dim = range(data.ndim)[time_dim]
 
     # Checking number of EOFs
     if neofs <= 0:
@@ -398,8 +397,10 @@ def eofunc_eofs(
     attrs['varianceFraction'] = solver.varianceFraction(neigs=neofs)
 
     if meta:
-        dims = ["eof"] + [data.dims[i] for i in range(data.ndim) if i != time_dim]
-        coords = {k: v for (k, v) in data.coords.items() if k != data.dims[time_dim]}
+        # array input has been transposed: time is the first dimension
+        time_name = data.dims[time_dim if is_xr else 0]
+        dims = ["eof"] + [dim for dim in data.dims if dim != time_name]
+        coords = {k: v for (k, v) in data.coords.items() if k != time_name}
     else:
         dims = ["eof"] + [f"dim_{i}" for i in range(data.ndim) if i != time_dim]
         coords = {}
@@ -498,9 +499,12 @@ def eofunc_pcs(
     `eofunc_ts_n_Wrap <https://www.ncl.ucar.edu/Document/Functions/Contributed/eofunc_ts_n_Wrap.shtml>`__
     """
 
+    is_xr = isinstance(data, xr.DataArray)
     data, solver = _generate_eofs_solver(
         data, time_dim=time_dim, weights=weights, center=center, ddof=ddof
     )
+    # a negative time_dim counts from the end
+    time_dim = range(data.ndim)[time_dim]
 
     # Checking number of EOFs
     if npcs <= 0:
@@ -521,7 +525,9 @@ def eofunc_pcs(
 
     dims = ["pc", "time"]
     if meta:
-        coords = {"time": data.coords[data.dims[time_dim]]}
+        # array input has been transposed: time is the first dimension
+        time_name = data.dims[time_dim if is_xr else 0]
+        coords = {"time": data.coords[time_name]} if time_name in data.coords else {}
     else:
         coords = {}
 
-- 
2.43.0


From 69655a103c07060ed88fd6aa159d4c7e1c53e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 10/18] fix: do not merge years a century apart in
 climate_anomaly('year')

---
 geocat/comp/climatologies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 1bc805a..c7f16d9 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -192,7 +192,7 @@ def climate_anomaly(
         'day': ('%m-%d', 'D'),
         'month': ('%m', 'MS'),
         'season': (None, 'QS-DEC'),
-        'year': ('%y', 'Y'),
+        'year': ('%Y', 'Y'),
     }
 
     if freq not in freq_dict:
-- 
2.43.0


From f6597c4d597c80c6e5f1e97d8f25c1af309c7c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 11/18] fix: make the direct name match of _find_var
 independent of the hash seed

---
 geocat/comp/gc_util.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/gc_util.py b/geocat/comp/gc_util.py
index 2b9c55f..c536227 100644
--- a/geocat/comp/gc_util.py
+++ b/geocat/comp/gc_util.py
@@ -117,16 +117,17 @@ def _find_var(
 
     # Then try direct name match
     if possible_names:
-        possible_names_expanded = set()
+        # a list, so that the order of possible_names decides between matches
+        possible_names_expanded = []
         for name in possible_names:
-            possible_names_expanded.update(
-                {
+            possible_names_expanded.extend(
+                [
                     name,
                     name.lower(),
                     name.upper(),
                     name.capitalize(),
                     '_'.join(word.capitalize() for word in name.split('_')),
-                }
+                ]
             )
 
         for name in possible_names_expanded:
-- 
2.43.0


From aeb2cb39fd21ea62c961f2594581299c80062e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 12/18] fix: layer thickness in delta_pressure when the surface
 lies within the top layer

---
 geocat/comp/meteorology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index ba855e0..4616f2b 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1255,6 +1255,10 @@ def _delta_pressure1D(pressure_lev, surface_pressure, pressure_top):
         surface_pressure - (pressure_lev[end_level] + pressure_lev[end_level - 1]) / 2
     )  # bottom level
 
+    # the surface lies within the top layer
+    if start_level == end_level:
+        delta_pressure[start_level] = surface_pressure - pressure_top
+
     # Return delta_pressure to original order
     if is_pressuredecreasing:
         delta_pressure = np.flip(delta_pressure)
-- 
2.43.0


From 867067e623cb4b45644a6e376ca79487ccd1e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:51 +0000
Subject: [PATCH 13/18] fix: relhum raised IndexError for a missing temperature

---
 geocat/comp/meteorology.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 4616f2b..ece672d 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -574,7 +574,9 @@ def relhum(
     # replace values of t above and below max and min values for temperature
     temperature = temperature.clip(mintemp, maxtemp)
 
-    it = (temperature - mintemp).astype(int)
+    # a missing temperature has no place in the table: the first entry stands in
+    # for it, and the result is missing all the same
+    it = xr.where(np.isnan(temperature), 0, temperature - mintemp).astype(int)
     t2 = mintemp + it
 
     es = (t2 + 1 - temperature) * table[it] + (temperature - t2) * table[it + 1]
-- 
2.43.0


From 988e088c998f19c7cff42c6ff3757d86e1a25ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:51 +0000
Subject: [PATCH 14/18] fix: delta_pressure raised ValueError for a missing
 surface pressure

---
 geocat/comp/meteorology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index ece672d..0cb48f6 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1225,6 +1225,10 @@ def _delta_pressure1D(pressure_lev, surface_pressure, pressure_top):
             "`surface_pressure` must be greater than minimum `pressure_lev` value."
         )
 
+    # No layers below a missing surface pressure
+    if np.isnan(surface_pressure):
+        return np.full_like(pressure_lev, np.nan, dtype=float)
+
     # Sort so pressure increases (array goes from top of atmosphere to bottom)
     is_pressuredecreasing = pressure_lev[1] < pressure_lev[0]
     if is_pressuredecreasing:
-- 
2.43.0


From 0d2e20f5fa0edfb511c1e9922f2b7823b18553dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:09 +0000
Subject: [PATCH 15/18] fix: gradient overflowed for single-precision and
 integer coordinates

---
 geocat/comp/gradient.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geocat/comp/gradient.py b/geocat/comp/gradient.py
index 9bf8f1d..ccbd7ed 100644
--- a/geocat/comp/gradient.py
+++ b/geocat/comp/gradient.py
@@ -239,6 +239,9 @@ def gradient(
     else:
         raise ValueError("lat or lon must be either both 1d or 2d.")
 
+    # the series have powers up to 49, which overflow in single precision and in integers
+    lon2d, lat2d = lon2d.astype(float), lat2d.astype(float)
+
     axis0loc = _arc_lat_wgs84(lat2d)
     axis1loc = _arc_lon_wgs84(lon2d, lat2d)
 
-- 
2.43.0


From 5bbfbb49be927aea1f5e2a20bc084c3a8e3535f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:09 +0000
Subject: [PATCH 16/18] fix: cyclic interp_multidim with descending longitudes

---
 geocat/comp/interpolation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index a840b63..cbd936b 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -110,8 +110,10 @@ def _pre_interp_multidim(
         padded_longitudes = np.pad(
             data_in.coords[data_in.dims[-1]], (1, 1), mode='wrap'
         )
-        padded_longitudes[0] -= 360
-        padded_longitudes[-1] += 360
+        # continue the longitudes in the direction in which they run
+        turn = 360 if padded_longitudes[1] <= padded_longitudes[-2] else -360
+        padded_longitudes[0] -= turn
+        padded_longitudes[-1] += turn
 
         data_in = xr.DataArray(
             padded_data,
-- 
2.43.0


From 9e246ae6038413f47a89b30946ba420fe863106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:09 +0000
Subject: [PATCH 17/18] fix: interp_sigma_to_hybrid failed for more hybrid than
 sigma levels

---
 geocat/comp/interpolation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index cbd936b..cb3ed05 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -838,7 +838,8 @@ def interp_sigma_to_hybrid(
 
         h_coords = sigma_stacked[0, :].copy()
 
-        output = data_stacked[:, : len(hyam)].copy()
+        # one entry per hybrid level, to be overwritten below
+        output = data_stacked.isel({lev_dim: [0] * len(hyam)})
 
         for idx, (d, s) in enumerate(zip(data_stacked, sigma_stacked)):
             output[idx, :] = xr.DataArray(
@@ -851,7 +852,7 @@ def interp_sigma_to_hybrid(
     else:
         h_coords = sigma
 
-        output = data[: len(hyam)].copy()
+        output = data.isel({lev_dim: [0] * len(hyam)})
         output[: len(hyam)] = xr.DataArray(
             _vertical_remap(func_interpolate, sigma.data, sig_coords.data, data.data),
             dims=[lev_dim],
-- 
2.43.0


From 25c67618198bba92ff96d85ff1c3ba5dadcf609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:09 +0000
Subject: [PATCH 18/18] fix: interp_sigma_to_hybrid truncated the values for
 integer data

---
 geocat/comp/interpolation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index cb3ed05..fdb7b7c 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -830,6 +830,9 @@ def interp_sigma_to_hybrid(
     # Calculate sigma levels at the hybrid levels
     sigma = _sigma_from_hybrid(ps, hyam, hybm, p0)  # Pa
 
+    # interpolated values of whole numbers are not whole numbers
+    dtype = np.result_type(data.dtype, np.float16)
+
     non_lev_dims = list(data.dims)
     if data.ndim > 1:
         non_lev_dims.remove(lev_dim)
@@ -839,7 +842,7 @@ def interp_sigma_to_hybrid(
         h_coords = sigma_stacked[0, :].copy()
 
         # one entry per hybrid level, to be overwritten below
-        output = data_stacked.isel({lev_dim: [0] * len(hyam)})
+        output = data_stacked.isel({lev_dim: [0] * len(hyam)}).astype(dtype)
 
         for idx, (d, s) in enumerate(zip(data_stacked, sigma_stacked)):
             output[idx, :] = xr.DataArray(
@@ -852,7 +855,7 @@ def interp_sigma_to_hybrid(
     else:
         h_coords = sigma
 
-        output = data.isel({lev_dim: [0] * len(hyam)})
+        output = data.isel({lev_dim: [0] * len(hyam)}).astype(dtype)
         output[: len(hyam)] = xr.DataArray(
             _vertical_remap(func_interpolate, sigma.data, sig_coords.data, data.data),
             dims=[lev_dim],
-- 
2.43.0

