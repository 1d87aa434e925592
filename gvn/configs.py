"""Abstract input configurations of every public function: (function, [configurations], opaque callees)."""

T1 = ('temperature',)
MET = [('dewtemp', ('temperature', 'relative_humidity')), ('heat_index', ('temperature', 'relative_humidity')),
       ('relhum', ('temperature', 'mixing_ratio', 'pressure')), ('relhum_ice', ('temperature', 'mixing_ratio', 'pressure')),
       ('relhum_water', ('temperature', 'mixing_ratio', 'pressure')), ('max_daylight', ('jday', 'lat')), ('psychrometric_constant', ('pressure',)),
       ('saturation_vapor_pressure', T1), ('actual_saturation_vapor_pressure', ('tdew',)), ('saturation_vapor_pressure_slope', T1)]

PSI_OPAQUE = ('geocat.comp.gc_util._find_var', 'geocat.comp.gc_util._find_optional_var', 'geocat.comp.meteorology.delta_pressure',
              'geocat.comp.interpolation.interp_hybrid_to_pressure')
EOF_OPAQUE = ('geocat.comp.stats.eofunc_eofs', 'geocat.comp.stats.eofunc_pcs')
NAMES = dict(meridional_wind_varname='str', surface_air_pressure_varname='str', plev_coordname='str', hyam_coordname='str', hybm_coordname='str')
STUBS = 'grid_to_triple linint1 linint2 linint2pts moc_globe_atl rcm2points rcm2rgrid rgrid2rcm triple_to_grid'.split()
SEASONS = 'DJF JFM FMA MAM AMJ MJJ JJA JAS ASO SON OND NDJ'.split()
HYB = dict(data='da', ps='da', hyam='da', hybm='da')


def K(params, kind, **extra):
    return dict({p: kind for p in params}, **extra)


def c(v):
    return ('c', v)


def met_configs():
    return [(f, [K(ps, k) for k in ('da', 'np', 'list', 'float')]) for f, ps in MET]


def delta_pressure():
    return [dict(e, pressure_lev=kl, surface_pressure=ks) for kl in ('da', 'np', 'list') for ks in ('da', 'np', 'float') for e in ({}, {'pressure_top': 'float'})]


def fourier(fn):
    out = []
    for k in ('da', 'np'):
        P = dict(signal=k, frequency='float', time_axis='int')
        if fn == 'fourier_filter':
            for m in ('low_pass', 'high_pass', 'band_pass', 'band_block'):
                out.append(dict(P, cutoff_frequency_low='float', cutoff_frequency_high='float', **{m: c(True)}))
        else:
            e = dict(P)
            if 'high' not in fn:
                e['cutoff_frequency_low'] = 'float'
            if 'low' not in fn:
                e['cutoff_frequency_high'] = 'float'
            out.append(e)
    return out


FOURIER = ('fourier_filter', 'fourier_low_pass', 'fourier_high_pass', 'fourier_band_pass', 'fourier_band_block')


def gradient():
    return [x for k in ('da', 'np', 'ds') for x in (dict(data=k), dict(data=k, lon='da', lat='da'), dict(data=k, lon='np', lat='np'))]


def hybrid(extra=({},)):
    out = []
    for e in ({}, {'p0': 'float', 'new_levels': 'np', 'lev_dim': 'str', 'method': c('log')}, {'method': 'str'},
              {'extrapolate': c(True), 'variable': c('other'), 'lev_dim': 'str'},
              {'extrapolate': c(True), 'variable': c('temperature'), 't_bot': 'da', 'phi_sfc': 'da'},
              {'extrapolate': c(True), 'variable': c('geopotential'), 't_bot': 'da', 'phi_sfc': 'da'},
              {'variable': 'str', 'extrapolate': c(True)}, {'extrapolate': c(True)}, {'variable': c('temperature'), 't_bot': 'da'}):
        out.append(dict(HYB, **e))
    return out


def sigma():
    return [dict(data='da', sig_coords='da', ps='da', hyam='da', hybm='da', **e) for e in ({}, {'p0': 'float', 'lev_dim': 'str', 'method': c('log')}, {'method': 'str'})]


def multidim(kinds=('da', 'np')):
    return [dict(data_in=k, lat_out='np', lon_out='np', **e) for k in kinds for e in (
        {}, {'lat_in': 'np', 'lon_in': 'np'}, {'missing_val': 'float'}, {'cyclic': c(True)},
        {'cyclic': 'bool', 'missing_val': 'float', 'method': 'str', 'fill_value': 'any', 'lat_in': 'np', 'lon_in': 'np'})]


def phl():
    return [dict(zip(('psfc', 'hya', 'hyb'), k), **e) for k in (('da', 'da', 'da'), ('np', 'np', 'np')) for e in ({}, {'p0': 'float'})]


def dph():
    return [dict(zip(('ps', 'hya', 'hyb'), k), **e) for k in (('da', 'da', 'da'), ('np', 'np', 'np'), ('da', 'np', 'np'), ('np', 'da', 'da')) for e in ({}, {'p0': 'float'})]


FREQ = {'calendar_average': ('hour', 'day', 'month', 'season', 'year'), 'climatology_average': ('hour', 'day', 'month', 'season'),
        'climate_anomaly': ('day', 'month', 'season', 'year')}
TIME = ({}, {'time_dim': 'str'}, {'time_dim': 'str', 'keep_attrs': c(None)}, {'time_dim': 'str', 'keep_attrs': 'bool'})


def clim(fn, kinds=('da', 'ds'), extra=TIME):
    if fn == 'month_to_season':
        return [dict(dset=k, season=c(s), **{('time_coord_name' if a == 'time_dim' else a): v for a, v in e.items()}) for k in kinds for s in SEASONS for e in extra]
    return [dict(dset=k, freq=c(f), **e) for k in kinds for f in FREQ[fn] for e in extra]


CLIM = ('calendar_average', 'climatology_average', 'climate_anomaly', 'month_to_season')


def custom(kinds=('da', 'ds')):
    return [dict(dset=k, freq=c('season'), custom_seasons=s, **e) for k in kinds for s in [c(x) for x in SEASONS] + [('list', [c('JFM'), c('NDJ')]), 'strs', 'str']
            for e in ({}, {'time_dim': 'str', 'keep_attrs': 'bool'})][:None]


def sph(fn):
    ps = {'decomposition': ('data', 'scale', 'theta', 'phi'), 'recomposition': ('data', 'theta', 'phi'), 'scale_voronoi': ('theta', 'phi')}[fn]
    return [K(ps, k, **e) for k in ('da', 'np') for e in (({}, {'max_harm': 'int'}) if fn != 'scale_voronoi' else ({},))]


def nmse():
    return [K(('observed', 'modeled'), k) for k in ('da', 'ds', 'np')] + [dict(observed='da', modeled='ds')]


def pearson():
    return [dict(e, a=k, b=k) for k in ('da', 'ds', 'np', 'list') for e in (
        {}, dict(dim='str'), dict(axis='int'), dict(weights=k, skipna='bool', keep_attrs='bool'), dict(weights=k, axis='int'))]


def eof(fn):
    n = 'neofs' if 'eofs' in fn else 'npcs'
    s = {'eofscaling': 'int', 'vfscaled': 'bool'} if 'eofs' in fn else {'pcscaling': 'int'}
    return [dict(e, data=k) for k in ('da', 'np', 'list') for e in (
        {}, {'time_dim': 'int', n: 'int', 'meta': c(True)}, {'time_dim': 'int', 'meta': 'bool'}, dict({n: 'int', 'center': 'bool', 'ddof': 'int', 'weights': 'any'}, **s))]


def eofunc(fn):
    return [dict(e, data=k, **({'neval': 'int'} if fn == 'eofunc' else {'evec': 'da'})) for k in ('da', 'np', 'list') for e in ({}, {'time_dim': 'int'}, {'meta': 'any'})]


FIND = [dict(e, ds='ds') for e in (
    {'standard_name': 'str'}, {'long_name': 'str'}, {'possible_names': ('list', ['str', 'str', 'str'])}, {'possible_names': 'strs'},
    {'standard_name': 'str', 'long_name': 'str', 'possible_names': 'strs', 'description': 'str'}, {'standard_name': 'str', 'possible_names': ('list', ['str', 'str'])})]


def everything():
    """[(function, configurations, opaque callees)] for the effect rules"""
    out = [(f, cs, ()) for f, cs in met_configs()]
    out += [('delta_pressure', delta_pressure(), ()), ('dpres_plev', [K(('pressure_lev', 'surface_pressure'), k) for k in ('da', 'np')], ())]
    out += [(f, fourier(f), ()) for f in FOURIER]
    out += [('gradient', gradient(), ())]
    out += [('interp_hybrid_to_pressure', hybrid(), ()), ('interp_sigma_to_hybrid', sigma(), ()), ('interp_multidim', multidim(), ()),
            ('pressure_at_hybrid_levels', phl(), ()), ('delta_pressure_hybrid', dph(), ())]
    out += [(f, clim(f, extra=({}, {'time_dim': 'str', 'keep_attrs': 'bool'})), ()) for f in CLIM]
    out += [('climatology_average', custom(('da', 'ds'))[-8:], ())]
    out += [(f, sph(f), ()) for f in ('decomposition', 'recomposition', 'scale_voronoi')]
    out += [('nmse', nmse(), ()), ('pearson_r', pearson(), ())]
    out += [(f, eof(f), ()) for f in ('eofunc_eofs', 'eofunc_pcs')]
    out += [(f, eofunc(f), ()) for f in ('eofunc', 'eofunc_ts')]
    out += [('zonal_meridional_psi', [dict(uxds='ds'), dict(NAMES, uxds='ds', lat='any')], PSI_OPAQUE), ('zonal_mpsi', [dict(uxds='ds'), dict(NAMES, uxds='ds', lat='any')], PSI_OPAQUE)]
    out += [(f, FIND, ()) for f in ('_find_var', '_find_optional_var')]
    out += [(f, [{'*args': ('tup', ['np', 'np'])}], ()) for f in STUBS]
    return out
