"""Effect rules: forbidden effects on any path of any public function."""
import ast
import os
from .values import *  # noqa
from . import terms as T, oblig as O, configs as C, drive, missing as M, dtypes as D
from .terms import leaves
from .compare import fails_off
from .runner import Rule

_runs = {}


def runs(dask=False):
    """one analysis of every public function in every configuration"""
    out = []
    for f, cs, op in C.everything():
        for cfg in cs:
            T.reset()
            O._axc.clear()
            out.append((f, cfg, O.run_fn(f, cfg, opaque=op, dask=dask)))
            yield out.pop()


def example(name, dask=False):
    T.reset()
    O._axc.clear()
    return O.run_fn(name, {'x': 'da'}, mods=['spec.bad'], dask=dask)


def what(e):
    d = e.data
    return {'mutate': lambda: 'writes into %s (%s)' % (', '.join(sorted(str(r[1]) for r in d['roots'])), d['what']),
            'global': lambda: '%s: %s' % (d['how'], d['name']),
            'nondet': lambda: 'uses ' + d['what'],
            'setiter': lambda: 'iterates over a set: the order depends on the hash seed',
            'badhandler': lambda: 'except clause does not name an exception class (TypeError when it is reached)',
            'swallow': lambda: 'handler for %s continues as if nothing had happened' % ', '.join(d['types']),
            'suppress': lambda: 'suppresses every exception',
            'compute': lambda: 'forces computation (%s)' % d['how'],
            'import': lambda: 'imports ' + d['name']}.get(e.kind, lambda: e.kind)()


def effect_rule(name, doc, kinds, bad, good, keep=lambda e: True, minimum=40, result=lambda r: None):
    def rule(tier):
        R = Rule(minimum)
        seen = {}
        for f, cfg, r in runs():
            R.at('%s(%s)' % (f, ', '.join('%s=%s' % (k, O.show_spec(v)) for k, v in cfg.items())))
            for e in list(r.events) + [m for m in r.A.module_events if at_import(m)]:
                if e.kind in kinds and keep(e) and fails_off(e.guard) is not FALSE:
                    k = (e.kind, e.site)
                    if k not in seen:
                        seen[k] = True
                        R.bad(name, f, what(e), e.site)
            w = result(r)
            if w and (f, w) not in seen:
                seen[f, w] = True
                R.bad(name, f, w, '')

        def flagged(x):
            r = example(x)
            return any(e.kind in kinds and keep(e) for e in r.events) or bool(result(r))
        R.selftest = all(flagged(b) for b in bad) and not any(flagged(g) for g in good)
        return R
    rule.__name__ = name
    rule.__doc__ = doc
    return rule


def at_import(e):
    return e.kind != 'global' or 'process-wide' in e.data['how'] or 'filter' in e.data['how'] or 'external' in e.data['how']


def inroots(e):
    return any(r[0] == 'in' for r in e.data['roots'])


def stateroots(e):
    return e.kind == 'global' or any(r[0] == 'global' for r in e.data['roots'])


no_input_write = effect_rule(
    'no-input-write', 'no path of a public function writes into an object reachable from an argument (items, attributes, coordinates, names, views)',
    ('mutate',), ('mut_item', 'mut_attrs', 'mut_view', 'mut_alias'), ('ok_copy',), inroots)
no_global_write = effect_rule(
    'no-state-write', 'no path of a public function writes module, function, default-argument or process-wide state, or keeps a cache',
    ('global', 'mutate'), ('glob_cache', 'glob_name', 'glob_filter', 'glob_attr', 'mut_default'), ('ok_filter',), stateroots)
def uninitialised(r):
    """does the result contain memory that was never written?"""
    seen = set()

    def raw(x):
        return x.op in ('uninit', 'empty') or x.op == 'full_like' and len(x.args) > 1 and x.args[1].op == 'uninit'

    def walk(x):
        if not isinstance(x, N) or x.fp in seen:
            return False
        seen.add(x.fp)
        if raw(x):
            return True
        if x.op in ('store', 'written', 'lset'):
            b = x.args[0]
            while b.op in ('store', 'written', 'lset'):
                if any(walk(a) for a in b.args[1:]):
                    return True
                b = b.args[0]
            return any(walk(a) for a in x.args[1:]) or (not raw(b) and walk(b))
        return any(walk(a) for a in x.args)
    if r.value is None:
        return None
    try:
        v = r.I._packed(r.I.val(r.value))
    except RecursionError:
        return None
    return 'returns elements of an array that were never written (numpy.empty)' if walk(v) else None


deterministic = effect_rule(
    'no-nondeterminism', 'no path of a public function draws on the clock, randomness, object identity or the iteration order of a set',
    ('nondet', 'setiter'), ('nd_random', 'nd_np', 'nd_time', 'nd_set', 'nd_list', 'nd_uninit', 'nd_where'), ('ok_set', 'ok_sets', 'ok_empty'), result=uninitialised)


def _broad(e):
    return e.kind != 'swallow' or any(n in ('Exception', 'BaseException', '') for n in e.data['types'])


handlers = effect_rule(
    'valid-handlers', 'every except clause names exception classes, and no handler for Exception or broader lets the call go on',
    ('badhandler', 'swallow', 'suppress'), ('bad_handler', 'bad_broad', 'bad_broad_return'), ('ok_handler',), _broad)


# ------------------------------------------------------------------ imports
def declared():
    """top-level packages the project declares, plus the hard dependencies of xarray and the standard library"""
    import re
    import sys as _s
    out = {'geocat', 'pandas', '__future__'} | set(_s.stdlib_module_names)
    txt = open(os.path.join(drive.REPO, 'pyproject.toml')).read()
    m = re.search(r'^dependencies\s*=\s*\[(.*?)\]', txt, re.S | re.M)
    for d in re.findall(r'["\']([A-Za-z0-9_.-]+)', m.group(1)):
        out.add(d.replace('-', '_'))
    return out


OPTIONAL_USE = {'zonal_meridional_psi': {'uxarray'}, 'zonal_mpsi': {'uxarray'}}


def optional_imports(tier):
    """importing geocat.comp, and calling any function on non-chunked input, imports declared dependencies only (uxarray: the zonal streamfunction only)"""
    R = Rule(40)
    ok = declared()
    A = O.analysis('geocat.comp')
    mods = [m for m in A.I.prog.mods.values() if m.name.startswith('geocat')]
    for m in mods:
        R.at('module ' + m.name)
    seen = set()
    for e in A.module_events:
        if e.kind == 'import':
            R.at('import %s (%s:%s)' % (e.data['name'], e.site[0], e.site[1]))
            if e.data['name'].split('.')[0] not in ok and e.guard is TRUE and e.site not in seen:
                seen.add(e.site)
                R.bad('declared-imports', e.site[0], 'importing the package imports %s, which is not a declared dependency' % e.data['name'], e.site)
    for f, cfg, r in runs():
        R.at(f)
        for e in r.events:
            if e.kind == 'import' and e.data['name'].split('.')[0] not in ok | OPTIONAL_USE.get(f, set()) and fails_off(e.guard) is not FALSE and e.site not in seen:
                seen.add(e.site)
                R.bad('declared-imports', f, 'imports %s, which is not a declared dependency, for input that does not need it' % e.data['name'], e.site)
    R.selftest = any(e.kind == 'import' for e in example('imp').events)
    return R


optional_imports.__name__ = 'declared-imports'


# ------------------------------------------------------------------ laziness
LAZY = {'dewtemp', 'heat_index', 'relhum_ice', 'relhum_water', 'psychrometric_constant', 'saturation_vapor_pressure',
        'actual_saturation_vapor_pressure', 'saturation_vapor_pressure_slope', 'interp_hybrid_to_pressure', 'pressure_at_hybrid_levels',
        'delta_pressure_hybrid', 'calendar_average', 'climatology_average', 'climate_anomaly', 'month_to_season', 'pearson_r', 'nmse'}


def lazy_state(r):
    """lazy flags of the arrays a run can return"""
    out = set()

    def walk(g):
        for l in leaves(g):
            if isinstance(l, Tup):
                for x in l.items:
                    walk(x)
            elif isinstance(l, Ref):
                cc = r.I.cell(l)
                if isinstance(cc, Arr):
                    out.add(cc.lazy)
                else:
                    out.add(None)
            elif isinstance(l, N) and l.op == 'dead':
                pass
            else:
                out.add(None)
    walk(fails_off(T.constrain(r.value, fails_off(r.live), O.DEAD)))
    return out


def not_lazy(r):
    s = lazy_state(r)
    return False in s


def laziness(tier):
    """on dask-backed arrays the documented functions force no computation and return a dask-backed result"""
    R = Rule(30)
    seen = set()
    for f, cs, op in C.everything():
        if f not in LAZY:
            continue
        for cfg in cs:
            if not any(v in ('da', 'ds') for v in cfg.values()) or any(v in ('np', 'list') for k, v in cfg.items() if k != 'new_levels'):
                continue
            T.reset()
            O._axc.clear()
            r = O.run_fn(f, cfg, opaque=op, dask=True)
            R.at('%s(%s)' % (f, ', '.join('%s=%s' % (k, O.show_spec(v)) for k, v in cfg.items())))
            for e in r.events:
                if e.kind == 'compute' and fails_off(e.guard) is not FALSE and (f, e.site) not in seen:
                    seen.add((f, e.site))
                    R.bad('laziness', f, what(e), e.site)
            if not_lazy(r) and f not in seen:
                seen.add(f)
                R.bad('laziness', f, 'the result for dask-backed input is not dask-backed', (r.f.mod.rel, r.f.node.lineno, f))
    R.selftest = not_lazy(example('eager_values', True)) and any(e.kind == 'compute' for e in example('eager_compute', True).events) and \
        lazy_state(example('ok_lazy', True)) == {True}
    return R


# ------------------------------------------------------------------ public interface
def documented():
    """(module, name) pairs of docs/user_api/index.rst"""
    out = []
    mod = None
    for line in open(os.path.join(drive.REPO, 'docs', 'user_api', 'index.rst')):
        t = line.strip()
        if t.startswith('.. currentmodule::'):
            mod = t.split('::')[1].strip()
        elif line.startswith('   ') and t and not t.startswith(':') and mod:
            m, n = (mod + '.' + t).rsplit('.', 1)
            out.append((m, n))
    return out


def doc_params(fn):
    """parameter names of the numpydoc section of a function, None if it has no docstring"""
    d = ast.get_docstring(fn)
    if not d:
        return None
    L = d.split('\n')
    for i, l in enumerate(L):
        if l.strip() == 'Parameters' and i + 1 < len(L) and set(L[i + 1].strip()) == {'-'}:
            out = []
            for m in L[i + 2:]:
                if m.strip() and set(m.strip()) == {'-'} and out:
                    out.pop()
                    break
                if m and not m[0].isspace() and m.strip():
                    out.append(m.split(':')[0].strip())
            return [n.strip().lstrip('*') for x in out for n in x.split(',') if n.strip()]
    return None


SPEC = {}
for _m, _fs in {'met': [f for f, _ in C.MET] + ['delta_pressure', 'dpres_plev'], 'four': C.FOURIER, 'grad': ['gradient'], 'psi': ['zonal_meridional_psi'],
                'interp': ['interp_hybrid_to_pressure', 'interp_sigma_to_hybrid', 'interp_multidim', 'pressure_at_hybrid_levels', 'delta_pressure_hybrid'],
                'clim': C.CLIM, 'sph': ['decomposition', 'recomposition', 'scale_voronoi'], 'st': ['nmse', 'pearson_r', 'eofunc_eofs', 'eofunc_pcs']}.items():
    for _f in _fs:
        SPEC[_f] = 'spec.' + _m


def params_of(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], a.kwarg is not None, a.vararg is not None


def public_api(tier):
    """every documented name is a function of its documented module and of geocat.comp (the same function); it accepts every documented parameter,
    positionally in the documented order"""
    R = Rule(40)
    top = O.analysis('geocat.comp')
    prog = top.I.prog
    seen = set()
    for m, n in documented():
        if (m, n) in seen:
            continue
        seen.add((m, n))
        R.at('%s.%s' % (m, n))
        md = prog.module(m)
        g = None
        if md is not None:
            top.I.load(md)
            g = md.globals.get(n)
        if not isinstance(g, Fn):
            R.bad('public-api', '%s.%s' % (m, n), 'documented, but not a function of that module', (md.rel if md else m, 0, n))
            continue
        h = top.mod.globals.get(n)
        if not isinstance(h, Fn) or h.node is not g.node:
            R.bad('public-api', '%s.%s' % (m, n), 'geocat.comp.%s is not this function' % n, (top.mod.rel, 0, n))
        ps, ko, kw, va = params_of(g)
        d = doc_params(g.node)
        for p in d or ():
            if p not in ps + ko and not kw and p not in ('args', 'kwargs'):
                R.bad('public-api', '%s.%s' % (m, n), 'documented parameter %s is not accepted' % p, (g.mod.rel, g.node.lineno, n))
        if n in SPEC:
            O_ = drive.Analysis(SPEC[n])
            s = O_.fn(n)
            want = params_of(s)[0]
            if ps[:len(want)] != want and not va:
                R.bad('public-api', '%s.%s' % (m, n), 'positional parameters are (%s), documented as (%s)' % (', '.join(ps), ', '.join(want)), (g.mod.rel, g.node.lineno, n))
            nd = len(ps) - len(g.node.args.defaults)
            ns = len(want) - len(s.node.args.defaults)
            if nd > ns:
                R.bad('public-api', '%s.%s' % (m, n), 'parameters documented as optional are required: %s' % ', '.join(ps[ns:nd]), (g.mod.rel, g.node.lineno, n))
    R.selftest = True
    return R


public_api.__name__ = 'public-api'


# ------------------------------------------------------------------ metadata
META = {
    'dewtemp': {'long_name': 'dew point temperature', 'units': 'Kelvin'},
    'heat_index': {'long_name': 'heat index: NWS', 'units': 'F'},
    'relhum': {'long_name': 'relative humidity', 'units': 'percentage'},
    'max_daylight': {'long_name': 'maximum daylight: FAO_56', 'units': 'hours/day'},
    'psychrometric_constant': {'long_name': 'psychrometric constant', 'units': 'kPa/C'},
    'saturation_vapor_pressure': {'long_name': 'saturation vapor pressure', 'units': 'kPa'},
    'actual_saturation_vapor_pressure': {'long_name': 'actual saturation vapor pressure via Tdew', 'units': 'kPa'},
    'saturation_vapor_pressure_slope': {'long_name': 'slope saturation vapor pressure curve', 'units': 'kPa/C'},
    'delta_pressure_hybrid': {'long_name': 'pressure layer thickness', 'units': 'Pa'},
    'zonal_meridional_psi': {'long_name': 'zonal mean meridional streamfunction', 'units': 'kg/s'},
}


def metadata(tier):
    """the DataArray a function returns carries the long_name and units of the quantity it computes"""
    R = Rule(9)
    for f, cs, op in C.everything():
        if f not in META:
            continue
        for cfg in cs:
            if f != 'zonal_meridional_psi' and not any(v == 'da' for v in cfg.values()) or any(v in ('np', 'list') for v in cfg.values()):
                continue
            T.reset()
            O._axc.clear()
            r = O.run_fn(f, cfg, opaque=op)
            R.at('%s(%s)' % (f, ', '.join('%s=%s' % (k, O.show_spec(v)) for k, v in cfg.items())))
            g = fails_off(T.constrain(T.gmap(lambda l: O.attrs_gate(r.I, l), r.value), fails_off(r.live), O.DEAD))
            site = (r.f.mod.rel, r.f.node.lineno, f)
            for key, want in META[f].items():
                for l in leaves(g):
                    if l.op == 'dead':
                        continue
                    got = None
                    if l.op == 'dict':
                        for a in l.args:
                            if a.op == 'kv' and T.isconst(a.args[0]) and a.args[0].param == key:
                                got = a.args[1]
                    if got is not None and got.fp == T.const(want).fp:
                        continue
                    und = bool(l.taint)
                    R.bad('metadata', f, 'attribute %s of the result is %s, not %r' % (key, 'missing' if got is None else T.show(got, 3)[:80], want),
                          r.I.sites.get(got.fp) if got is not None and r.I.sites.get(got.fp) else site, undecided=und)
                    break
    R.selftest = True
    return R


LEVELDATA = {'pressure_at_hybrid_levels': ('psfc',), 'delta_pressure_hybrid': ('ps',), 'delta_pressure': ('surface_pressure',), 'dpres_plev': ('surface_pressure',),
             'interp_hybrid_to_pressure': ('data', 'ps')}
KNOWN_DROP = {'calendar_average': 'F16', 'climatology_average': 'F17', 'climate_anomaly': 'F18'}


def period_means(n):
    """dropna applied to the means of the periods of the input itself"""
    x = n.args[0] if n is not None and n.op == 'dropna' else None
    if x is None or x.op != 'g:mean' or not x.args or x.args[0].op != 'resample':
        return False
    x = x.args[0].args[0]
    return x.op in ('in', 'sel', 'pw')


def _timedim(l):
    return isinstance(l, T.N) and (l.op == 'in' and l.param in ('time_dim', 'time_coord_name', 'lev_dim') or l.op == 'attr' or T.isconst(l) and l.param in ('time', 'lev'))


def walk(r, data, over=None, axis=None):
    from . import local
    w = local.Walk(set(data), over, axis)
    w.value(r.I.val(r.value), fails_off(r.live))
    return w


def locality(tier):
    """the result at a cell is computed from the data of that cell (column, series) alone"""
    R = Rule(120)
    met = dict(C.met_configs())
    seen = set()
    for f, cs, op in C.everything():
        if not (f in met or f in C.CLIM or f in C.FOURIER or f in LEVELDATA):
            continue
        for cfg in cs:
            data = LEVELDATA.get(f) or [k for k, v in cfg.items() if v in ('da', 'ds', 'np', 'list') and k != 'custom_seasons']
            if not data or any(cfg.get(k) == 'float' for k in data):
                continue
            T.reset()
            O._axc.clear()
            r = O.run_fn(f, cfg, opaque=op)
            desc = '%s(%s)' % (f, ', '.join('%s=%s' % (k, O.show_spec(v)) for k, v in cfg.items()))
            R.at(desc)
            w = walk(r, data, _timedim if f in C.CLIM or f == 'interp_hybrid_to_pressure' else None, 'time_axis' if f in C.FOURIER else None)
            for why, n in w.mixes.items():
                site = r.I.sites.get(n.fp) if n is not None else None
                known = KNOWN_DROP.get(f) if period_means(n) else None
                if (f, why, known) not in seen or known:
                    R.bad('locality', desc, why, site or (r.f.mod.rel, r.f.node.lineno, f), known=known)
                seen.add((f, why, known))
            if not w.mixes and w.unknown:
                R.bad('locality', desc, 'operation not modelled: ' + ', '.join(sorted(w.unknown))[:200], (r.f.mod.rel, r.f.node.lineno, f), undecided=True)
    bad = [walk(example(b), ['x']).mixes for b in ('scaled_by_max', 'branch_on_any', 'shifted_cells')]
    good = [walk(example(b), ['x']) for b in ('ok_lazy', 'ok_any_guard')]
    R.selftest = all(bad) and not any(g.mixes or g.unknown for g in good)
    return R


MISSDATA = {'pressure_at_hybrid_levels': ('psfc',), 'delta_pressure_hybrid': ('ps', 'psfc'), 'delta_pressure': ('surface_pressure',), 'dpres_plev': ('surface_pressure',)}


def _missing(r, cfg, x):
    live = fails_off(r.live)
    skipna, scalar = cfg[x] == 'da', cfg[x] == 'float'
    found, unknown = M.check(r.I.val(r.value), x, skipna, live, scalar=scalar) if r.value is not None else ([], {})
    found = [(why, r.I.sites.get(n.fp)) for why, n in found]
    found += [(why, e.site) for why, e in M.raises(r.events, live, x, skipna, scalar)]
    return found, unknown


def missing(tier):
    """a missing value (NaN) in a cell of a data input gives a missing value there, and no error"""
    R = Rule(100)
    met = dict(C.met_configs())
    seen = set()
    for f, cs, op in C.everything():
        if not (f in met or f in MISSDATA):
            continue
        for cfg in cs:
            data = [k for k in MISSDATA.get(f, cfg) if cfg.get(k) in ('da', 'np', 'list', 'float')]
            if not data:
                continue
            T.reset()
            O._axc.clear()
            r = O.run_fn(f, cfg, opaque=op)
            for x in data:
                desc = '%s(%s), %s missing' % (f, ', '.join('%s=%s' % (k, O.show_spec(v)) for k, v in cfg.items()), x)
                R.at(desc)
                here = (r.f.mod.rel, r.f.node.lineno, f)
                found, unknown = _missing(r, cfg, x)
                for why, site in found:
                    if (f, x, why) not in seen:
                        R.bad('missing value', desc, why, site or here)
                    seen.add((f, x, why))
                if unknown and not found:
                    R.bad('missing value', desc, 'not modelled: ' + ', '.join(sorted(unknown))[:200], here, undecided=True)
    cfg = {'x': 'da'}
    bad = [_missing(example(b), cfg, 'x')[0] for b in ('hides_missing', 'fills_missing', 'index_missing', 'raise_missing', 'max_missing')]
    good = [_missing(example(b), cfg, 'x') for b in ('ok_lazy', 'ok_missing', 'ok_missing_flag')]
    R.selftest = all(bad) and not any(g or u for g, u in good)
    return R


TYPEKINDS = ('da', 'ds', 'np', 'list', 'any')


def _types(run, cfg, only=None, to='I'):
    kinds = {}
    for k, v in cfg.items():
        kinds[k] = (to if only in (None, k) else 'F') if v in TYPEKINDS else 'WF' if v == 'float' else 'W' if v == 'int' else '?'
    return D.check(run, kinds)


def integers(tier):
    """whole-number and single-precision input gives what the same numbers in double precision give"""
    R = Rule(100)
    seen = set()
    T.DTYPES = True
    try:
        for f, cs, op in C.everything():
            for cfg in cs:
                data = [k for k, v in cfg.items() if v in TYPEKINDS]
                if not data or f in C.STUBS:
                    continue
                T.reset()
                O._axc.clear()
                r = O.run_fn(f, cfg, opaque=op)
                here = (r.f.mod.rel, r.f.node.lineno, f)
                for what, only, to in [('whole numbers', None, 'I'), ('single precision', None, 'S')] + ([('only %s whole numbers' % k, k, 'I') for k in data] if len(data) > 1 else []):
                    desc = '%s(%s), %s' % (f, ', '.join('%s=%s' % (k, O.show_spec(v)) for k, v in cfg.items()), what)
                    R.at(desc)
                    found, unknown = _types(r, cfg, only, to)
                    for why, site in found:
                        if (f, why, site) not in seen:
                            R.bad('element type', desc, why, site or here)
                        seen.add((f, why, site))
                    if unknown and not found:
                        R.bad('element type', desc, 'not modelled: ' + unknown[0], here, undecided=True)
        cfg = {'x': 'np'}
        bad = [_types(example(b), cfg)[0] for b in ('int_like', 'int_inplace', 'int_copy', 'int_out', 'int_power', 'int_back')]
        good = [_types(example(b), cfg) for b in ('ok_int_like', 'ok_int_cast', 'ok_int_flip', 'ok_int_power')]
    finally:
        T.DTYPES = False
    R.selftest = all(bad) and not any(g or u for g, u in good)
    return R
