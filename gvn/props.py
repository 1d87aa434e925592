"""The properties: which obligations and rules decide each one."""
from .runner import Prop
from .oblig import Ob
from . import configs as C, rules as R
from .configs import c, K

V = ('value', 'dims', 'coords', 'bare', 'fail')
CLIMFN = tuple('%s.%s' % (m, f) for m in ('geocat.comp.climatologies', 'spec.clim') for f in ('calendar_average', 'climatology_average'))
OTHER = ('other',)


def obs(fn, cfgs, aspects=V, spec=None, **kw):
    mod, name = spec or (R.SPEC[fn], fn)
    return [Ob(fn, cfg, (mod, name), aspects, **kw) for cfg in cfgs]


def flags(tier, make):
    """thorough: again for dask-backed and for pint-backed data"""
    out = make()
    if tier == 'thorough':
        out += make(dask=True) + make(pint=True)
    return out


def formulas(names):
    def f(tier):
        def make(**kw):
            out = []
            for fn, ps in C.MET:
                if fn in names:
                    out += obs(fn, [K(ps, k) for k in ('da', 'np', 'list', 'float')], **kw)
                    if 'vapor_pressure' in fn:
                        out += obs(fn, [K(ps, k, tfill='float') for k in ('da', 'np')], **kw)
                    if fn == 'heat_index':
                        out += obs(fn, [K(ps, k, alternate_coeffs=c(v)) for k in ('da', 'np') for v in (True, False)], **kw)
            return out
        return flags(tier, make)
    return f


# ------------------------------------------------------------------ C04
def wrappers(tier):
    out = []
    F = ('geocat.comp.fourier_filters.fourier_filter',)
    for f in C.FOURIER[1:]:
        out += obs(f, C.fourier(f), V)
    out += [Ob('dpres_plev', dict(e, pressure_lev=k, surface_pressure=k), ('spec.met', 'dpres_plev_fwd'), V + ('kind', 'attrs', 'name'), opaque=o)
            for k in ('da', 'np') for e in ({}, {'pressure_top': 'float'}) for o in (('geocat.comp.meteorology.delta_pressure',),)]
    out += [Ob('zonal_mpsi', cfg, ('spec.psi', 'zonal_mpsi'), V + ('kind',), opaque=('geocat.comp.meteorology.zonal_meridional_psi',))
            for cfg in (dict(uxds='ds'), dict(C.NAMES, uxds='ds', lat='any'))]
    for f in ('eofunc', 'eofunc_ts'):
        out += obs(f, C.eofunc(f), V + ('kind',), spec=('spec.st', f), opaque=C.EOF_OPAQUE)
    return out


# ------------------------------------------------------------------ C05, C06
def kinds(tier):
    out = []
    for f, cs, op in C.everything():
        if f == 'interp_multidim':
            out += obs(f, cs, ('kind',), spec=('spec.interp', 'interp_multidim_same_type'), known=(('F06', ('spec.interp', 'interp_multidim')),))
        elif f in R.SPEC and f != 'zonal_meridional_psi':
            out += obs(f, cs, ('kind',), opaque=op)
    return out


REPR = C.MET + [('delta_pressure', ('pressure_lev', 'surface_pressure')), ('scale_voronoi', ('theta', 'phi')), ('fourier_filter', ('signal', 'frequency')),
                ('gradient', ('data', 'lon', 'lat')), ('eofunc', ('data', 'neval')), ('eofunc_ts', ('data', 'evec'))]


def chunked(f):
    if f in C.CLIM:
        return [x for x in C.clim(f) if x.get('dset') == 'da'][:4]
    for g, cs, _ in C.everything():
        if g == f:
            return [x for x in cs if 'da' in x.values() and 'np' not in x.values()][:2]


def representation(tier):
    out = []
    for f, ps in REPR:
        for k in ('np', 'list'):
            out.append(Ob(f, K(ps, k), ('geocat.comp', f), ('value',), refcfg=K(ps, 'da'), label=k + ' against DataArray'))
        if f not in ('delta_pressure', 'scale_voronoi', 'eofunc', 'eofunc_ts'):
            out.append(Ob(f, K(ps, 'da'), ('geocat.comp', f), ('value', 'kind'), dask=True, refdask=False, label='chunked against not chunked'))
    for f in ('fourier_low_pass', 'fourier_high_pass', 'pressure_at_hybrid_levels', 'delta_pressure_hybrid', 'nmse', 'pearson_r', 'decomposition', 'recomposition') + C.CLIM:
        for cfg in chunked(f):
            out.append(Ob(f, cfg, ('geocat.comp', f), ('value', 'kind'), dask=True, refdask=False, label='chunked against not chunked', opaque=CLIMFN if f == 'climate_anomaly' else ()))
    return out


# ------------------------------------------------------------------ gradient
def gradient(tier):
    out = obs('gradient', C.gradient())
    for f, cfg in (('_rad_lat_wgs84', dict(lat='np')), ('_arc_lat_wgs84', dict(lat='np')), ('_arc_lon_wgs84', dict(lon='np', lat='np'))):
        out.append(Ob(f, cfg, ('spec.grad', f), V))
    return out


# ------------------------------------------------------------------ climatologies
def seasons(tier):
    return obs('month_to_season', C.clim('month_to_season', extra=({}, {'time_dim': 'str'}))) + \
        obs('climatology_average', C.custom() if tier == 'thorough' else [x for x in C.custom() if 'keep_attrs' not in x and x['custom_seasons'] not in ('str',)])


def averages(tier):
    out = []
    for f in ('calendar_average', 'climatology_average'):
        out += obs(f, C.clim(f, extra=C.TIME if tier == 'thorough' else ({}, {'time_dim': 'str'})))
    return out


def anomaly(tier):
    return obs('climate_anomaly', C.clim('climate_anomaly'), opaque=CLIMFN)


def timedim(tier):
    out = []
    for f in C.CLIM:
        out += obs(f, C.clim(f, extra=({}, {'time_dim': 'str'})), opaque=CLIMFN if f == 'climate_anomaly' else ())
    for f in ('eofunc_eofs', 'eofunc_pcs'):
        out += obs(f, [{'data': k, 'time_dim': 'int'} for k in ('da', 'np')])
    out += obs('fourier_filter', [x for x in C.fourier('fourier_filter')])
    out += obs('interp_hybrid_to_pressure', [dict(C.HYB, lev_dim='str'), dict(C.HYB)])
    out += obs('interp_sigma_to_hybrid', C.sigma()[:2])
    return out


def keep_attrs(tier):
    out = []
    for f in C.CLIM:
        out += obs(f, C.clim(f), ('attrs',))
    out += obs('climatology_average', C.custom(('da',))[-6:], ('attrs',))
    out += obs('pearson_r', [dict(a='da', b='da', keep_attrs=x) for x in ('bool', c(True), c(False))], ('attrs',))
    return out


# ------------------------------------------------------------------ rejection
def rejects(tier):
    A = ('raise', 'warn')
    out = []
    for f, cs, op in C.everything():
        if f in R.SPEC and f != 'zonal_meridional_psi':
            out += obs(f, cs, A, opaque=op or (CLIMFN if f == 'climate_anomaly' else ()))
    for k in ('da', 'ds'):
        for f in ('calendar_average', 'climatology_average', 'climate_anomaly'):
            out += obs(f, [dict(dset=k, freq=OTHER), dict(dset=k, freq='str', time_dim='str')], A, opaque=CLIMFN if f == 'climate_anomaly' else ())
        out += obs('month_to_season', [dict(dset=k, season=OTHER)], A)
        out += obs('climatology_average', [dict(dset=k, freq=c('season'), custom_seasons=s) for s in (OTHER, 'str', 'strs')], A)
        out += obs('climatology_average', [dict(dset=k, freq=c('month'), custom_seasons='str')], A)
    T3 = ('psfc', 'hya', 'hyb')
    out += obs('pressure_at_hybrid_levels', [dict(zip(T3, x)) for x in (('da', 'np', 'np'), ('da', 'da', 'np'), ('np', 'da', 'da'), ('list', 'list', 'list'))], A)
    T3 = ('ps', 'hya', 'hyb')
    out += obs('delta_pressure_hybrid', [dict(zip(T3, x)) for x in (('da', 'da', 'np'), ('list', 'list', 'list'))] + [dict(zip(T3, ('da', 'da', 'da')), p0='str')], A)
    out += obs('pearson_r', [dict(a='da', b='np'), dict(a='da', b='da', dim='str', axis='int')], A)
    for f in ('_find_var', '_find_optional_var'):
        out += obs(f, C.FIND, ('raise',), spec=('spec.util', f))
    return out


# ------------------------------------------------------------------ vertical interpolation
def hybrid_pressure(tier):
    return flags(tier, lambda **k: obs('pressure_at_hybrid_levels', C.phl(), **k) + obs('delta_pressure_hybrid', C.dph(), **k))


def extrapolation(tier):
    return flags(tier, lambda **k: obs('interp_hybrid_to_pressure', [x for x in C.hybrid() if x.get('extrapolate') == c(True) and 'variable' in x], **k))


def core(tier):
    def make(**k):
        return obs('interp_hybrid_to_pressure', [x for x in C.hybrid() if 'extrapolate' not in x] + [
            dict(C.HYB, lev_dim='str', method=c('log')), dict(C.HYB, lev_dim='str', method=c('linear'), new_levels='np')], **k)
    out = make() + make(dask=True)
    return out + (make(pint=True) if tier == 'thorough' else [])


def delta_pressure(tier):
    return obs('delta_pressure', C.delta_pressure())


def psi(tier):
    out = []
    for cfg in (dict(uxds='ds'), dict(uxds='ds', lat='any'), dict(C.NAMES, uxds='ds', lat='any'))[: 3 if tier == 'thorough' else 3]:
        out.append(Ob('zonal_meridional_psi', cfg, ('spec.psi', 'zonal_meridional_psi'), V, opaque=C.PSI_OPAQUE, known=(('F15', ('spec.psi', 'psi_cos_degrees')),)))
    return out


def fourier(tier):
    return obs('fourier_filter', C.fourier('fourier_filter') + [dict(signal=k, frequency='float', **{m: c(True)}) for k in ('da', 'np')
                                                               for m in ('low_pass', 'high_pass', 'band_pass', 'band_block')])


def sph(tier):
    out = []
    for f in ('decomposition', 'recomposition', 'scale_voronoi'):
        out += obs(f, C.sph(f))
    return out


def eof(tier):
    out = []
    for f in ('eofunc_eofs', 'eofunc_pcs'):
        out += obs(f, C.eof(f), V + ('attrs',))
    return out


def find(tier):
    out = []
    for f in ('_find_var', '_find_optional_var'):
        out += obs(f, C.FIND, V, spec=('spec.util', f))
    return out


def stubs(tier):
    out = []
    for f in C.STUBS:
        for cfg in ({}, {'opt': 'int', 'msg': 'any'}, {'*args': ('tup', ['np'])}, {'*args': ('tup', ['np', 'np', 'np', 'np'])}):
            out += obs(f, [cfg], ('value', 'raise', 'fail', 'warn'), spec=('spec.util', 'stub'))
    return out


def pearson(tier):
    return obs('pearson_r', C.pearson())


def nmse(tier):
    return flags(tier, lambda **k: obs('nmse', C.nmse(), **k))


def eofattrs(tier):
    out = []
    for f in ('eofunc_eofs', 'eofunc_pcs'):
        out += obs(f, C.eof(f), ('attrs',))
    out += obs('interp_hybrid_to_pressure', C.hybrid()[:2], ('attrs', 'name'))
    out += obs('delta_pressure', [x for x in C.delta_pressure() if 'da' in x.values()], ('name',))
    out += obs('delta_pressure_hybrid', [C.dph()[0]], ('name',))
    return out


VG = 'Gated value numbering: the repository function and its reference are abstractly interpreted on the same symbolic inputs and the results are compared as normalised value graphs over all paths. '
EF = 'Effect analysis: every path of every public function is abstractly interpreted over its input configurations and the recorded effects are checked against the rule. '

PROPS = {
    'C01': Prop('Inputs are never modified', None, (R.no_input_write,), EF),
    'C02': Prop('No hidden state', None, (R.no_global_write,), EF),
    'C03': Prop('Determinism', None, (R.deterministic,), EF),
    'C04': Prop('Wrappers forward faithfully', wrappers, (), VG),
    'C05': Prop('Container kinds', kinds, (), VG),
    'C06': Prop('Representation independence', representation, (), VG),
    'C07': Prop('FAO-56 formulas', formulas({'saturation_vapor_pressure', 'actual_saturation_vapor_pressure', 'saturation_vapor_pressure_slope',
                                             'psychrometric_constant', 'max_daylight'}), (), VG),
    'C08': Prop('Heat index', formulas({'heat_index'}), (), VG),
    'C09': Prop('Dew point and relative humidity', formulas({'dewtemp', 'relhum', 'relhum_ice', 'relhum_water'}), (), VG),
    'C10': Prop('WGS84 gradient', gradient, (), VG),
    'C11': Prop('Seasons', seasons, (), VG),
    'C12': Prop('Calendar and climatology averages', averages, (), VG),
    'C13': Prop('Climate anomalies', anomaly, (), VG),
    'C14': Prop('Requested dimension is the one used', timedim, (), VG),
    'C15': Prop('keep_attrs', keep_attrs, (), VG),
    'C16': Prop('Rejection of bad input', rejects, (), VG),
    'C17': Prop('Hybrid-level pressure', hybrid_pressure, (), VG),
    'C18': Prop('Below-ground extrapolation', extrapolation, (), VG),
    'C19': Prop('Hybrid to pressure interpolation', core, (), VG),
    'C20': Prop('Horizontal interpolation', lambda t: obs('interp_multidim', C.multidim()), (), VG),
    'C21': Prop('Sigma to hybrid', lambda t: obs('interp_sigma_to_hybrid', C.sigma()), (), VG),
    'C22': Prop('Layer thickness', delta_pressure, (), VG),
    'C23': Prop('Meridional streamfunction', psi, (), VG),
    'C24': Prop('Fourier filters', fourier, (), VG),
    'C25': Prop('Spherical harmonics', sph, (), VG),
    'C26': Prop('EOF analysis', eof, (), VG),
    'C27': Prop('NMSE', nmse, (), VG),
    'C28': Prop('Pearson correlation', pearson, (), VG),
    'C29': Prop('Variable lookup', find, (), VG),
    'C30': Prop('Public interface', None, (R.public_api,), 'Syntax-tree and name-resolution query over the package and its documentation index. '),
    'C31': Prop('Optional dependencies', None, (R.optional_imports,), EF),
    'C32': Prop('Deprecated stubs', stubs, (), VG),
    'C33': Prop('Result metadata', eofattrs, (R.metadata,), VG),
    'C34': Prop('Laziness', None, (R.laziness,), EF),
    'C35': Prop('Error discipline', None, (R.handlers,), EF),
    'C40': Prop('Cells are independent', None, (R.locality,), 'Dependence analysis: the value graph of every path of every function in scope is searched for operations '
                'through which the data of another cell can reach a result. '),
    'C42': Prop('Whole-number and single-precision input', None, (R.integers,), 'Element types (whole numbers of the input, single, double, Python number) are propagated over the value graph of every path, '
                'and every write into an array is compared with the type the array was made with. '),
    'C41': Prop('A missing value stays missing', None, (R.missing,), 'The gated value graph of every formula is evaluated once more with one input cell missing: comparisons with it are decided, '
                'and every way out must be missing, the fill value of the caller, or independent of that cell. '),
}
