#!/usr/bin/python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MET, STA, GRA, INT, CLI, FOU, SPH, UTL, DEP = ('geocat/comp/%s.py' % m for m in (
    'meteorology', 'stats', 'gradient', 'interpolation', 'climatologies', 'fourier_filters', 'spherical', 'gc_util', 'deprecated'))
INIT = 'geocat/comp/__init__.py'
ALL = [MET, STA, GRA, INT, CLI, FOU, SPH, UTL, DEP]

VG, EF = 'static gated value numbering', 'static effect analysis'
VGT = 'static dataflow: abstract interpretation to gated value graphs, global value numbering against a reference'
EFT = 'static effect analysis by abstract interpretation of every public entry point'
RULET = 'static name-resolution and signature query over the syntax tree'
N_VG = ('Decides equality of the value graphs of the function and of an independent reference on symbolic inputs of unbounded shape and content, on every path, modulo real-arithmetic '
        'rewriting; trusted: the semantics table of numpy/xarray/metpy/eofs/cf_xarray calls and the reference. Undecided obligations are reported, never counted as discharged.')
N_EF = ('Every path of every public function over its input configurations; trusted: the alias and effect summaries of library calls. Calls without a summary are reported as undecided.')

P = []


def anchors(files, symbols):
    return {'files': files, 'mechanism': [{'name': x, 'where': where(x, files)} for x in symbols], 'observe_at': symbols}


def where(sym, files):
    for f in files:
        p = os.path.join('/repo', f)
        if f.endswith('.py') and os.path.exists(p) and 'def %s(' % sym in open(p).read():
            return f
    return files[0]


def prop(pid, title, statement, over, text, why, files, symbols, technique=VGT, note=N_VG):
    P.append((dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                   anchors=anchors(files, symbols)), technique, note))


prop('C01', 'Functions never modify what the caller passes in',
     'No public function changes any object it is given: values, coordinates, attributes, names and dimensions of arrays and datasets, lists, and the memory shared through views are the same after '
     'the call as before, whether the call returns or raises.',
     ['inputs', 'histories'], 'every public function, every input, every path including the failing ones',
     'Tests compare results, not inputs, and one sampled input never shows the aliasing path that writes through a view or a shared attribute dictionary.',
     ALL, ['every function of docs/user_api/index.rst'], EFT, N_EF)
prop('C02', 'Calls leave no hidden state behind',
     'A call keeps nothing: no module variable, default argument, cache or function attribute, and no process-wide setting (warning filters, numpy error state, xarray options, random seeds) '
     'is different after a call or after importing the package.',
     ['histories', 'inputs'], 'every sequence of calls', 'Each test makes one or a few calls from a fresh state, so a result that depends on earlier calls does not show.',
     ALL, ['every function of docs/user_api/index.rst'], EFT, N_EF)
prop('C03', 'The same inputs always give the same result',
     'Results depend on the arguments alone: never on the clock, random numbers, object identity, the environment, or the iteration order of sets (the hash seed).',
     ['histories', 'inputs', 'configurations'], 'every process, hash seed and call history', 'A test process has one hash seed and one clock; agreement between processes is not sampled.',
     ALL, ['every function of docs/user_api/index.rst'], EFT, N_EF)
prop('C04', 'Convenience wrappers forward their arguments faithfully',
     'dpres_plev is delta_pressure, zonal_mpsi is zonal_meridional_psi, fourier_low_pass/high_pass/band_pass/band_block are fourier_filter in that mode, and eofunc/eofunc_ts are '
     'eofunc_eofs/eofunc_pcs on the plain array with the number of modes taken from neval or the first length of evec and time_dim defaulting to the last axis: every argument a caller '
     'gives (including pressure_top, time_axis, both cutoffs, every variable name and the latitudes) reaches the function it stands for.',
     ['inputs', 'configurations'], 'every combination of arguments', 'Tests call the wrappers with a few arguments, mostly the defaults, where a dropped argument makes no difference.',
     [MET, FOU, STA], ['dpres_plev', 'zonal_mpsi', 'fourier_low_pass', 'fourier_high_pass', 'fourier_band_pass', 'fourier_band_block', 'eofunc', 'eofunc_ts'])
prop('C05', 'The result is the same kind of container as the input',
     'Functions that accept several containers return what they document: a DataArray for DataArray input, a Dataset for Dataset input, an ndarray for ndarray input and, for heat_index, relhum_ice '
     'and relhum_water, a list for list input; eofunc_eofs, eofunc_pcs, eofunc and eofunc_ts always give a DataArray, and gradient a list of two arrays.',
     ['inputs'], 'every supported container for every function', 'Tests check numbers with array comparisons that accept any container.',
     ALL, ['every function of docs/user_api/index.rst'])
prop('C06', 'Values do not depend on how the input is represented',
     'The same numbers given as a list, as an ndarray or as a DataArray give the same numbers back from the meteorology functions, delta_pressure, the Fourier filter, gradient, scale_voronoi and '
     'the legacy EOF functions.',
     ['inputs'], 'every numeric input in each supported representation', 'Tests sample one representation per data set; a branch for one container can diverge on inputs nobody sampled.',
     [MET, FOU, GRA, SPH, STA], ['dewtemp', 'heat_index', 'relhum', 'relhum_ice', 'relhum_water', 'max_daylight', 'delta_pressure', 'fourier_filter', 'gradient', 'scale_voronoi'])
prop('C07', 'FAO-56 formulas are computed as published',
     'For temperatures in Fahrenheit above freezing, saturation_vapor_pressure and actual_saturation_vapor_pressure are 0.6108*exp(17.27*c/(c+237.3)) with c in Celsius, and '
     'saturation_vapor_pressure_slope is 4096 times that over (c+237.3) squared; at or below freezing (c <= 0) all three give tfill. '
     'psychrometric_constant is 0.66474e-3 times the pressure, and max_daylight is 24/pi times the sunset hour angle arccos(-tan(lat)*tan(declination)) with declination '
     '0.409*sin(2*pi/365*jday-1.39), one row per day and one column per latitude.',
     ['inputs'], 'every temperature, pressure, day and latitude, of every shape', 'Tests compare a handful of temperatures and days; boundaries at freezing and other coefficients of rarely used branches go unseen.',
     [MET], ['saturation_vapor_pressure', 'actual_saturation_vapor_pressure', 'saturation_vapor_pressure_slope', 'psychrometric_constant', 'max_daylight'])
prop('C08', 'The heat index follows the NWS algorithm in every regime',
     'heat_index returns the temperature itself below 40 F; from 40 F on Steadman\'s simple formula, and wherever that reaches the critical value (79, or 70 with alternate_coeffs) the Rothfusz '
     'regression with the standard or the alternate coefficients. The dry adjustment (relative humidity at most 13 %, 80 to 112 F) is subtracted and the humid one (above 85 %, 80 to 87 F) is added, '
     'elementwise and independently for each point.',
     ['inputs'], 'every temperature and humidity, including the boundaries of each regime', 'Tests have a few points inside the regimes; each boundary comparison and each coefficient needs its own point.',
     [MET], ['heat_index'])
prop('C09', 'Humidity conversions follow their published formulas',
     'dewtemp inverts the Clausius-Clapeyron relation of Dutton (1976) with the temperature dependent latent heat; relhum interpolates the saturation vapour pressure linearly in its one-degree table over '
     'temperatures clipped to 173.16..375.16 K and returns at least 0.0001 percent; relhum_ice and relhum_water use the Alduchov-Eskridge and Buck/Tetens coefficients respectively, with the '
     'mixing ratio in kg/kg and the pressure in Pa. These hold for every element of inputs of any shape.',
     ['inputs'], 'every temperature, humidity, mixing ratio and pressure', 'Tests sample some temperatures; most of the 202 table entries and the clipping bounds are never reached.',
     [MET], ['dewtemp', 'relhum', 'relhum_ice', 'relhum_water'])
prop('C10', 'Gradients are per metre on the WGS84 ellipsoid, along the right axis',
     'gradient returns the derivative along latitude (first axis) and along longitude (second axis), each the finite difference of the data divided by the finite difference along the same axis of the '
     'WGS84 meridian arc length, respectively of the arc along the parallel of that latitude. Coordinates may be one- or two-dimensional, given as arguments or taken from the data, and the ellipsoid '
     'radius and arc length are the published series to the last coefficient.',
     ['inputs'], 'every field and grid', 'Tests use a small number of grids with loose tolerances, which high-order coefficients and a swapped axis on symmetric grids survive.',
     [GRA], ['gradient', '_rad_lat_wgs84', '_arc_lat_wgs84', '_arc_lon_wgs84'])
prop('C11', 'A season is made of exactly its three months',
     'Each of the twelve three-letter seasons is the average of exactly its three consecutive months: month_to_season averages the three consecutive months of the same season, drops the incomplete '
     'season at the record\'s end (DJF) or beginning (NDJ), gives one value per year labelled with the middle month, and climatology_average with any custom season (or list of them) uses exactly '
     'the months of that season, day-weighted, labelled with its name.',
     ['inputs', 'configurations'], 'every season name, time axis and data set', 'Tests try a few seasons; an entry of the season table that no test uses can be wrong.',
     [CLI], ['month_to_season', 'climatology_average'])
prop('C12', 'Calendar and climatological averages weight and group time correctly',
     'calendar_average gives one value per hour, day, month, season (DJF, MAM, JJA, SON) or year, and climatology_average one value per hour of the year, day of the year, month or season over all years. '
     'Hourly to monthly values are plain means; seasonal and annual values are means of the monthly means weighted with the number of days of each month, the weights of each group summing to one. '
     'Results are labelled with the middle of their period, in the input\'s calendar.',
     ['inputs', 'configurations'], 'every frequency, calendar, time axis and data set', 'The climatology tests are not run to completion offline and sample one calendar each.',
     [CLI], ['calendar_average', 'climatology_average'])
prop('C13', 'An anomaly is the difference from the matching climatological period',
     'climate_anomaly subtracts from each value the mean of its own group and of no other: the same calendar day over all years (day), the same calendar month over all years (month), the same season over '
     'all years (season), or its own year (year). The result has the time axis of the input.',
     ['inputs', 'configurations'], 'every frequency and time axis, including records longer than a century', 'Tests use short records, where group keys that lose information still separate the groups.',
     [CLI], ['climate_anomaly'])
prop('C14', 'The dimension the caller names is the one that is used',
     'When a time or level dimension is named (time_dim, time_coord_name, time_axis, lev_dim), every step of the calculation uses that dimension; when it is not, the CF time or vertical '
     'coordinate is used, whatever it is called. No function assumes that the dimension is called "time" or "lev", or that it comes first.',
     ['inputs', 'configurations'], 'every name and position of the dimension', 'The sampled data sets call their dimensions time and lev.',
     [CLI, STA, FOU, INT], ['calendar_average', 'climatology_average', 'climate_anomaly', 'month_to_season', 'eofunc_eofs', 'eofunc_pcs', 'fourier_filter', 'interp_hybrid_to_pressure', 'interp_sigma_to_hybrid'])
prop('C15', 'keep_attrs decides what happens to the attributes',
     'In calendar_average, climatology_average, climate_anomaly and month_to_season the attributes of the object are kept with keep_attrs=True and dropped with keep_attrs=False; the defaults '
     'keep them in calendar_average and climate_anomaly and, in the averages that build their result from whole objects, follow the documented None. pearson_r passes keep_attrs on to the correlation.',
     ['inputs', 'configurations'], 'every function with keep_attrs, every value of it, every frequency', 'Tests check attributes for one frequency at most.',
     [CLI, STA], ['calendar_average', 'climatology_average', 'climate_anomaly', 'month_to_season', 'pearson_r'])
prop('C16', 'Invalid input is rejected, valid input is not',
     'Documented misuse raises an exception instead of returning numbers: unequal shapes, mixed or unsupported types, relative humidity outside 0..100, unknown frequencies, seasons, interpolation methods and '
     'extrapolation variables, missing t_bot/phi_sfc, a pressure top below the highest level or below zero, non-time coordinates, uneven time spacing, incomplete years, zero modes, an out-of-range '
     'time_dim, missing coordinates. No other input is rejected, and the documented warnings (humidity given as a fraction, latitudes beyond 55 and 66 degrees, ignored custom seasons, unused '
     'dim or axis) are raised exactly when they apply.',
     ['inputs'], 'every combination of arguments', 'Tests try one bad value per check, and nothing tries that valid input at the boundary is accepted.',
     ALL, ['every function of docs/user_api/index.rst'])
prop('C17', 'Pressure and thickness on hybrid levels follow hya*p0 + hyb*ps',
     'pressure_at_hybrid_levels is hya*p0+hyb*ps for every level and column, and delta_pressure_hybrid is the absolute difference of that between each pair of consecutive interfaces (one layer less '
     'than interfaces), for DataArray and ndarray input alike and whatever the two coefficient arrays call their dimension.',
     ['inputs'], 'every level count, shape and reference pressure', 'Tests use one data set with the default reference pressure; its downloads are unavailable offline.',
     [INT], ['pressure_at_hybrid_levels', 'delta_pressure_hybrid'])
prop('C18', 'Below-ground values follow ECMWF\'s extrapolation',
     'interp_hybrid_to_pressure with extrapolate=True replaces exactly the values at pressures above (that is, below ground of) the lowest model level: for temperature and geopotential height with the formulas of '
     'Trenberth et al. (1993), in every branch (surface below 2000 m, between 2000 and 2500 m, above 2500 m; warm, mixed and cold surface), for any other variable with the value at the lowest level.',
     ['inputs'], 'every surface height, temperature and pressure', 'The tests need files that are not available offline, and their columns reach few of the branches.',
     [INT], ['interp_hybrid_to_pressure'])
prop('C19', 'Hybrid to pressure interpolation uses each column\'s own pressures',
     'interp_hybrid_to_pressure interpolates each column at the requested levels, linearly or in log pressure as asked, against that column\'s pressures hyam*p0+hybm*ps, along the level dimension wherever '
     'it is. The result has dimension plev in its place with the requested levels as coordinate, and keeps every other coordinate, eager or dask-backed alike.',
     ['inputs', 'configurations'], 'every dimension order, level set and method', 'The tests need files that are not available offline, with one dimension order.',
     [INT], ['interp_hybrid_to_pressure'])
prop('C20', 'Horizontal interpolation treats missing values and the date line correctly',
     'interp_multidim interpolates the last two dimensions to the given latitudes and longitudes with the method and fill value asked for. missing_val is treated as missing on the way in and restored on the '
     'way out, and with cyclic=True the field is continued by one column on each side with the values of the opposite edge, a full turn (360 degrees) further in the direction in which the longitudes run, ascending or descending.',
     ['inputs', 'configurations'], 'every grid, missing value and option', 'Tests use one grid, and files that are not available offline.',
     [INT], ['interp_multidim'])
prop('C21', 'Sigma to hybrid interpolation treats each column on its own',
     'interp_sigma_to_hybrid interpolates every column from the sigma levels to hyam*p0/ps+hybm of the same column, linearly or logarithmically as asked; the result has dimension hlev where the level '
     'dimension was, one entry per hybrid level, and otherwise the input\'s dimensions in their order.',
     ['inputs', 'configurations'], 'every shape, dimension order and method', 'The tests need files that are not available offline.',
     [INT], ['interp_sigma_to_hybrid'])
prop('C22', 'Pressure layers fill the column from the top to the surface',
     'delta_pressure gives each level the layer between the midpoints to its neighbours, bounded above by pressure_top (the lowest given pressure by default) and below by the surface pressure; levels '
     'whose layer lies below the surface are NaN, and the layers therefore add up to surface pressure minus pressure_top. It holds for increasing and decreasing levels alike and for surface pressures of any shape, with the '
     'levels last in the result.',
     ['inputs'], 'every set of levels, order and surface pressure', 'Tests use one set of levels, where the surface lies below all of them or in the middle.',
     [MET], ['delta_pressure', 'dpres_plev'])
prop('C23', 'The meridional streamfunction integrates the wind from the top',
     'zonal_meridional_psi is 2*pi*a*cos(lat)/g times the sum, from the top of the atmosphere down to each level, of the zonal mean meridional wind times the thickness of its layer over the zonal mean surface pressure, '
     'whether the levels ascend or descend; data on hybrid levels are interpolated to pressure first, and names the caller gives override the search for variables. Missing or nonpositive surface pressure is rejected.',
     ['inputs', 'configurations'], 'every grid, level order and naming', 'Tests use two data sets and one naming.',
     [MET], ['zonal_meridional_psi'])
prop('C24', 'Fourier filters keep exactly the requested band',
     'fourier_filter removes exactly the bins outside the band asked for, on both sides of the spectrum so that the result is real: low pass keeps frequencies below the lower cutoff, high pass those from the higher cutoff on, '
     'band pass those between the two, band block those outside. This holds for any sampling frequency, record length (odd or even) and time axis, and the shape of the signal is kept.',
     ['inputs', 'configurations'], 'every signal, cutoff, axis and mode', 'Tests use a few cutoffs on one record length.',
     [FOU], ['fourier_filter'])
prop('C25', 'Spherical harmonics use one ordering and one normalisation',
     'decomposition and recomposition use the same order of harmonics (degree n outer, order m from 0 to n inner), the same angles (theta azimuth, phi colatitude) and fold the negative orders into a factor '
     'two for m > 0; decomposition is scaled with 4*pi over the sum of the cell areas. scale_voronoi gives the spherical Voronoi cell area of each point of the same grid, in its shape.',
     ['inputs'], 'every field, grid and truncation', 'Tests compare a few fields at low truncation; errors of a factor in the orders they do not contain go unseen.',
     [SPH], ['decomposition', 'recomposition', 'scale_voronoi'])
prop('C26', 'EOF analysis passes every option to the solver along the right axis',
     'eofunc_eofs and eofunc_pcs decompose the data along the time dimension named by time_dim (negative values count from the end, array input), and neofs/npcs, scaling, weights, center and ddof reach the solver. '
     'The eigenvalues, North test, total variance and variance fractions attached to the result of eofunc_eofs belong to those modes and options, the modes come first in the result, and with meta=True the other coordinates stay with it.',
     ['inputs', 'configurations'], 'every shape, time axis and combination of options', 'Tests use time as first axis and almost only default options.',
     [STA], ['eofunc_eofs', 'eofunc_pcs'])
prop('C27', 'nmse is the area-weighted error over the area-weighted variance',
     'nmse is the cos(latitude) weighted mean squared difference between modeled and observed values divided by the equally weighted variance of the observations about their weighted mean, over the latitude and longitude '
     'dimensions only, using only points present in both. It is not symmetric: the variance is that of the observations.',
     ['inputs'], 'every pair of fields and pattern of missing values', 'Tests compare a few fields on one grid and need files that are not available offline.',
     [STA], ['nmse'])
prop('C28', 'pearson_r correlates along the requested dimension',
     'pearson_r is the (weighted) Pearson correlation of a and b along dim for xarray objects and along axis for arrays, over everything when neither is given; weights, skipna and keep_attrs are honoured in '
     'every case, and unsuitable weights raise ValueError.',
     ['inputs', 'configurations'], 'every container and combination of options', 'Tests use small arrays and one option at a time.',
     [STA], ['pearson_r'])
prop('C29', 'Variable lookup tries standard name, then long name, then names',
     'When the streamfunction looks for a variable, the standard name is tried before the long name, and that before the list of usual names, in the order of the list; names match as variable name or attribute, in lower, upper, '
     'capitalised or title case and with spaces or underscores in long names. A required variable that is not found is a KeyError, an optional one is None.',
     ['inputs', 'configurations'], 'every data set and naming', 'Tests use data sets with one candidate, where the priority does not matter.',
     [UTL], ['_find_var', '_find_optional_var'])
prop('C30', 'The documented interface is what the package exports',
     'Every function of the API documentation can be imported from its documented module and from geocat.comp, where it is the same function; it accepts every documented parameter, positionally in the documented order, '
     'and no parameter documented as optional is required.',
     ['configurations'], 'every documented function and parameter', 'Tests call functions through one import path and few parameters.',
     ALL + [INIT, 'docs/user_api/index.rst'], ['geocat.comp'], RULET, 'Exhaustive over the documentation index and the signatures; names are resolved statically through the package\'s imports.')
prop('C31', 'Only declared dependencies are needed',
     'Importing geocat.comp and calling any function imports nothing but the standard library and the declared dependencies; uxarray is imported only by the zonal streamfunction, when it is called.',
     ['configurations', 'histories'], 'every function and installation', 'The test environment has every optional package installed.',
     ALL + [INIT, 'pyproject.toml'], ['geocat.comp'], EFT, N_EF)
prop('C32', 'Functions moved to other packages warn and return nothing',
     'The functions that moved to geocat-f2py (grid_to_triple, linint1, linint2, linint2pts, moc_globe_atl, rcm2points, rcm2rgrid, rgrid2rcm, triple_to_grid) accept any arguments, raise a warning on every path and return None; '
     'they never raise an exception.',
     ['inputs'], 'every stub and argument list', 'No test calls them.', [DEP], ['geocat.comp.deprecated'])
prop('C33', 'Results carry the metadata of what they are',
     'The DataArrays the meteorology functions return have the long_name and units of the quantity computed, never those of the input; delta_pressure_hybrid, delta_pressure and interp_hybrid_to_pressure set '
     'their documented names and attributes, and EOF results carry the solver\'s eigenvalues, North test, total variance and variance fractions.',
     ['inputs', 'configurations'], 'every function, branch and container', 'Tests compare numbers; few look at attributes.',
     [MET, INT, STA], ['dewtemp', 'heat_index', 'relhum', 'max_daylight', 'delta_pressure_hybrid', 'eofunc_eofs', 'zonal_meridional_psi'])
prop('C34', 'Functions documented as lazy stay lazy',
     'On dask-backed input the elementwise meteorology functions, the hybrid-level functions, the climatologies, pearson_r and nmse never compute the data, except for a yes/no validity check of its range, never convert it to another array type, and return a dask-backed result.',
     ['inputs', 'configurations'], 'every lazy function and option', 'Dask tests compare values, which a hidden compute leaves unchanged.',
     [MET, INT, CLI, STA], ['dewtemp', 'heat_index', 'relhum_ice', 'relhum_water', 'interp_hybrid_to_pressure', 'pressure_at_hybrid_levels', 'calendar_average', 'climatology_average', 'climate_anomaly'], EFT, N_EF)
prop('C35', 'Errors are neither masked nor replaced by accident',
     'Every exception handler names real exception classes, so that reaching it does not itself fail, and no handler that catches everything lets a call continue with a wrong or missing result.',
     ['inputs', 'fault_sequences'], 'every handler and failing path', 'Tests reach few of the handlers.', ALL, ['heat_index', 'relhum_ice', 'relhum_water', 'pearson_r', 'interp_hybrid_to_pressure'], EFT, N_EF)
prop('C40', 'Cells are independent',
     'What a cell of the input holds (an outlier, a missing value) changes only the results computed from that cell: the meteorology formulas, pressure_at_hybrid_levels, delta_pressure_hybrid and delta_pressure '
     'give each position from that position alone; the calendar averages, climatologies, anomalies and seasonal means give each cell from the times of that cell; the Fourier filters give each series along time_axis from '
     'that series; and interp_hybrid_to_pressure gives each column from that column. (Refusing the whole input with an exception is not a change of a result.)',
     ['inputs'], 'every array and every position of an unusual value', 'Tests compare whole arrays of ordinary values; a summary of the array that leaks into a result is invisible until one cell is unusual.',
     [MET, INT, CLI, FOU], ['heat_index', 'relhum', 'max_daylight', 'delta_pressure', 'pressure_at_hybrid_levels', 'delta_pressure_hybrid', 'calendar_average', 'climatology_average', 'climate_anomaly', 'month_to_season',
                            'fourier_filter', 'interp_hybrid_to_pressure'],
     'dependence analysis over gated value graphs', 'A sound over-approximation of which other cells can reach a result, up to the summaries of numpy and xarray; operations without a summary are reported as undecided.')
prop('C41', 'A missing value stays missing',
     'A missing value (NaN) in a data input of a meteorology formula, of pressure_at_hybrid_levels or delta_pressure_hybrid, or in the surface pressure of delta_pressure, gives a missing value at that position of the result '
     '(or the fill value the caller asked for), never a number taken from another branch, a filled-in value or a limit of the input; and it raises no error.',
     ['inputs'], 'every position of a missing value and every branch the other inputs select', 'Tests use complete data; in code made of thresholds and clipping a NaN silently takes the branch of a failed comparison.',
     [MET, INT], ['dewtemp', 'heat_index', 'relhum', 'relhum_ice', 'relhum_water', 'saturation_vapor_pressure', 'saturation_vapor_pressure_slope', 'max_daylight', 'delta_pressure', 'pressure_at_hybrid_levels',
                  'delta_pressure_hybrid'],
     'abstract evaluation of gated value graphs', 'Every path of every formula and container; the per-column loop of delta_pressure over arrays is decided only as far as conditions of one element are separated (otherwise reported as undecided).')
prop('C42', 'Whole-number and single-precision input',
     'Data, pressures, coordinates and other array inputs of integer type (32 or 64 bits), and of single precision, give the results the same numbers give in double precision, up to single-precision rounding: no result or '
     'intermediate value is cut to a whole number because an array of the input\'s type is reused or imitated to hold it, no result is cast back to an integer input type, no missing value is refused because integers cannot '
     'hold it, and no high power of the input overflows its type.',
     ['inputs'], 'every element type of every array input, every branch', 'Tests pass floating-point arrays almost everywhere; an array made "like" the input silently truncates only for integers.',
     [MET, INT, FOU, GRA, SPH, STA, CLI], ['delta_pressure', 'heat_index', 'relhum', 'max_daylight', 'saturation_vapor_pressure', 'interp_hybrid_to_pressure', 'interp_sigma_to_hybrid', 'interp_multidim', 'fourier_filter',
                                      'gradient', 'decomposition', 'scale_voronoi', 'nmse', 'eofunc_eofs', 'climatology_average'],
     'element-type inference over gated value graphs, with effect analysis of array writes', 'Every array write, power and cast on every path, with all array inputs whole, each alone whole, and all in single precision; operations without a '
     'typing rule are never alarmed on.')

NA = [
    ('C36', 'Recomposition inverts decomposition',
     'Decomposing a band-limited field and recomposing it gives the field back, within the quadrature error of the grid.',
     ['inputs'], 'every band-limited field', 'Round trips are sampled for two fields.', [SPH], ['decomposition', 'recomposition'],
     'numerical round trip: the quadrature error of a grid is a runtime quantity no static argument in reach bounds; the shared ordering, angles and normalisation are decided by C25'),
    ('C37', 'Results do not depend on how dask chunks the data',
     'For every chunking of the input the computed result equals the one for unchunked input.',
     ['inputs', 'schedules'], 'every chunking', 'One chunking is sampled per function.', [INT, CLI, STA], ['interp_hybrid_to_pressure', 'calendar_average'],
     'the block-wise evaluation happens in dask, xarray and metpy; whether a kernel commutes with chunking is a property of their runtime behaviour. What is visible in this code (no forced computation, same value graph for '
     'dask-backed input) is decided by C34 and by the dask configurations of C19'),
    ('C38', 'Results are accurate to the precision of the input type',
     'For float32 and float64 input the rounding error of each formula stays within a few units in the last place of the result.',
     ['inputs'], 'every finite input', 'Tolerances of the tests are loose and the inputs few.', [MET, GRA, STA], ['dewtemp', 'gradient', 'nmse'],
     'error bounds quantify over rounding at run time; value numbering here reasons in exact real arithmetic'),
    ('C39', 'Climatological labels are valid dates for leap days',
     'A daily climatology of a record with leap days has 366 labels that are valid dates of one year in the input\'s calendar.',
     ['inputs'], 'every record and calendar', 'The sampled records are short.', [CLI], ['climatology_average'],
     'the number and validity of the labels depend on the run-time values of the time axis (median year, leap days) and on calendar arithmetic inside cftime/pandas; known to fail for a median year that is not a leap year (DESIGN.md)'),
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + '\n')
        for i, t, s, o, q, w, fl, sy, r in NA:
            f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier={'over': o, 'text': q}, why_tests_cant=w, anchors=anchors(fl, sy))) + '\n')
    cmd = '/usr/bin/python3 -W ignore check.py %s'
    m = {'version': 1, 'setup_cmd': '/usr/bin/python3 -c "import ast, sys; assert sys.version_info >= (3, 10)"',
         'checks': [{'property': p['id'], 'quick_cmd': cmd % p['id'], 'thorough_cmd': cmd % p['id'], 'technique': t, 'level': 'other', 'level_note': n} for p, t, n in P],
         'not_applicable': [{'property': x[0], 'reason': x[-1]} for x in NA],
         'notes': 'Pure static analysis: /repo is parsed on every run and never imported or executed; no hooks, nothing to build. Repairs of genuine defects are the fix: commits listed in known_findings.txt.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')


main()
