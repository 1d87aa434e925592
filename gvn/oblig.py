"""Obligations: one function of the repository, one abstract input configuration, one reference."""
import time
from .values import *  # noqa
from . import terms as T, drive, ops
from .terms import H, const
from .compare import cmp_gates, fails_off, Diff, axioms, _axc
from .interp import Interp

MODS = ['geocat.comp', 'geocat.comp.meteorology', 'geocat.comp.stats', 'geocat.comp.gradient', 'geocat.comp.gc_util',
        'geocat.comp.interpolation', 'geocat.comp.climatologies', 'geocat.comp.fourier_filters', 'geocat.comp.spherical', 'geocat.comp.deprecated']

_prog = None


def prog():
    global _prog
    if _prog is None:
        _prog = drive.program()
    return _prog


_an = {}


def analysis(mod):
    """a fresh interpreter per run (the source is parsed once)"""
    return drive.Analysis(mod, _fresh())


def _fresh():
    p = drive.program()
    p.mods = {}
    return p


class Missing(Exception):
    pass


def run_fn(name, cfg, mods=MODS, dask=False, pint=False, opaque=()):
    Interp.config = {'dask': dask, 'pint': pint}
    Interp.opaque_fns = frozenset(opaque)
    try:
        for m in mods:
            try:
                A = analysis(m)
            except KeyError:
                continue
            if isinstance(A.fn(name), Fn):
                return drive.run(m, name, dict(cfg), A=A)
    finally:
        Interp.config = {'dask': False, 'pint': False}
    raise Missing(name)


def guard_of(events, pred):
    g = FALSE
    for e in events:
        if pred(e):
            g = gor(g, e.guard)
    return g


def raises(r, typ=None, implicit=False):
    return guard_of(r.events, lambda e: e.kind == 'raise' and (implicit or not e.data['implicit'] or e.data['type'] in ()) and
                    e.data['type'] != 'NotImplementedError' and (typ is None or e.data['type'] == typ))


def outscope(r):
    return guard_of(r.events, lambda e: e.kind == 'raise' and e.data['type'] == 'NotImplementedError')


def types_of(r):
    return sorted({str(e.data['type']) for e in r.events if e.kind == 'raise' and not e.data['implicit'] and e.data['type'] != 'NotImplementedError'})


def warns(r, cat=None):
    return guard_of(r.events, lambda e: e.kind == 'warn' and (cat is None or e.data.get('category') == cat))


def fixed_items(I, l):
    if isinstance(l, Tup):
        return list(l.items)
    if isinstance(l, Ref):
        c = I.cell(l)
        if isinstance(c, ListC) and not isinstance(c, SetC) and all(s[0] == 'i' and s[2] is TRUE for s in c.segs):
            return [s[1] for s in c.segs]
    return None


def parts(I, g, live, path='result', depth=0):
    """split a gated result into named components"""
    ls = [l for l in leaves(T.constrain(g, live, NONE))] if live is not TRUE else leaves(g)
    its = [fixed_items(I, l) for l in ls if not (isinstance(l, N) and l.taint and l.op == 'opaque')]
    if its and all(x is not None for x in its) and len({len(x) for x in its}) == 1 and depth < 3 and len(its[0]) > 0:
        n = len(its[0])
        out = []
        for i in range(n):
            def f(l, i=i):
                x = fixed_items(I, l)
                return x[i] if x is not None else l
            out += parts(I, T.gmap(f, g), live, '%s[%d]' % (path, i), depth + 1)
        return out
    return [(path, g)]


DEAD = H('dead')


def kind_term(I, l):
    k = I.kind(l)
    if isinstance(l, N) and l.taint and l.op == 'opaque':
        return l
    if isinstance(l, Ref) and isinstance(I.cell(l), Arr):
        if k == 'np' and any(x.op == 'atleast1' for g in leaves(I.val(l)) if isinstance(g, N) for x in T.subterms(g)):
            return H('kind', (), 'np, never 0-d')
        return H('kind', (), {'np0': 'np'}.get(k, k))
    if k in ('int', 'float', 'scalar', 'scalar?', 'npscalar', 'bool', 'any'):
        return H('kind', (), 'scalar')
    return H('kind', (), k)


def attrs_gate(I, l):
    if isinstance(l, Ref):
        c = I.cell(l)
        if isinstance(c, Arr):
            return I.val(c.attrs) if c.attrs is not None else I.attrs_term(c)
    return H('noattrs')


def name_gate(I, l):
    from .libattr import arrattr
    if isinstance(l, Ref):
        c = I.cell(l)
        if isinstance(c, Arr) and c.kind in ('da', 'uxda'):
            return I.val(arrattr(I, l, c, 'name', None))
    return H('noname')


UNSURE = frozenset(['labels written another way'])


def _unsure(op, *args):
    return H(op, args, taint=UNSURE)


def _seq(t):
    """elements of a sequence of dimension names, or None"""
    if t.op in ('list', 'tuple'):
        out = []
        for a in t.args:
            if a.op == 'star':
                s = _seq(a.args[0])
                if s is None:
                    return None
                out += s
            else:
                out.append(a)
        return out
    if t.op in ('compif', 'comp', 'dims', 'map'):
        return [t]
    return None


def _inside(y, v):
    """is y the value v, or an operand of element-wise operations that make v"""
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if not isinstance(x, N) or x.fp in seen:
            continue
        seen.add(x.fp)
        if x.fp == y.fp:
            return True
        if x.op in ('where', 'pw') or x.op in ops.ELEMWISE:
            st += [z for g in ((x.aux,) if x.op == 'pw' and x.aux is not None else ()) for z in leaves(g)] + list(x.args)
    return False


def dims_leaf(I, l):
    if not isinstance(l, Ref) or not isinstance(I.cell(l), Arr) or I.cell(l).kind not in ('da', 'uxda'):
        return H('nodims')
    c = I.cell(l)
    if c.dims is None:
        return _unsure('same')

    def one(t, v):
        if t.op == 'dims':
            return _unsure('same') if isinstance(v, N) and _inside(t.args[0], v) else _unsure('dimsof', t)
        s = _seq(t)
        if s is None:
            return _unsure('unsure', t)
        if len(s) == 1 and s[0].op == 'dims':
            return one(s[0], v)
        return H('labels', s)
    return T.lift(one, [I.val(c.dims), I._packed(I.val(c.val))], ew=False)


def _keysof(t):
    if t.op == 'keys':
        t = t.args[0]
    return t if t.op == 'coords' else None


def coords_term(t, dims):
    """canonical form of the coordinates given to a constructor"""
    if t is NONE:
        return H('dict', (), 0)
    if t.op == 'coords':
        return t
    if t.op in ('list', 'tuple') and dims is not None and len(dims) == len(t.args):
        return H('dict', tuple(sorted((H('kv', (d, a)) for d, a in zip(dims, t.args)), key=lambda n: n.fp)), 0)
    if t.op == 'dictmerge' and t.args[0].op == 'dict' and not t.args[0].args:
        return coords_term(t.args[1], dims)
    if t.op == 'dictdel':
        b = coords_term(t.args[0], dims)
        return H('dictdel', (b, t.args[1])) if b is not None and b.op in ('coords', 'dictdel') else None
    if t.op == 'dict':
        if all(a.op == 'kv' for a in t.args):
            return H('dict', tuple(sorted(t.args, key=lambda n: n.fp)), 0)
        if len(t.args) == 1 and t.args[0].op == 'each' and len(t.args[0].args) >= 3:
            dom, k, v = t.args[0].args[:3]
            if k.op != 'index' or v.op != 'item' or v.args[1].fp != k.fp:
                return None
            src = _keysof(k.args[0])
            if src is None or v.args[0].fp not in (src.fp, src.args[0].fp):
                return None
            if len(t.args[0].args) == 3:
                return src
            cond = t.args[0].args[3]
            g = cond.aux if cond.op == 'pw' else None
            if isinstance(g, T.Ite) and g.hi is FALSE and g.lo is TRUE and g.atom.n.op == 'eq':
                other = [a for a in g.atom.n.args if a.fp != k.fp]
                if len(other) == 1:
                    return H('dictdel', (src, other[0]))
            if isinstance(g, T.Ite) or cond.op == 'contains':
                return H('dictif', (src, ops.subst(cond, {k.fp: H('key')}) if cond.op != 'pw' else cond))
    return None


def _overdims(a):
    """an entry for every dimension"""
    k = a.args[1] if len(a.args) > 1 else None
    while k is not None and k.op in ('index', 'star'):
        k = k.args[0]
    return k is not None and k.op == 'dims'


def coords_leaf(I, l, bare=False):
    if not isinstance(l, Ref) or not isinstance(I.cell(l), Arr) or I.cell(l).kind not in ('da', 'uxda'):
        return H('nocoords')
    c = I.cell(l)
    if c.dims is None and c.coords is None:
        return FALSE if bare else _unsure('same')
    if c.coords is None:
        return TRUE if bare else H('dict', (), 0)

    def one(t, v, d):
        s = _seq(d) if d is not NONE else None
        if bare and t.op == 'dict' and t.args and all(a.op == 'each' and _overdims(a) for a in t.args):
            return H('dimension coordinates only')
        r = coords_term(t, s)
        if r is None:
            return _unsure('unsure', t)
        if bare:
            return TRUE if r.op == 'dict' and not r.args else FALSE
        if r.op == 'coords':
            return _unsure('same') if isinstance(v, N) and _inside(r.args[0], v) else _unsure('coordsof', r)
        return r
    return T.lift(one, [I.val(c.coords), I._packed(I.val(c.val)), I._packed(I.val(c.dims)) if c.dims is not None else NONE], ew=False)


ASPECT = {
    'dims': lambda I, g: T.gmap(lambda l: dims_leaf(I, l), g),
    'coords': lambda I, g: T.gmap(lambda l: coords_leaf(I, l), g),
    'bare': lambda I, g: T.gmap(lambda l: coords_leaf(I, l, True), g),
    'value': lambda I, g: I.val(g),
    'full': lambda I, g: I.full(g),
    'kind': lambda I, g: T.gmap(lambda l: kind_term(I, l), g),
    'attrs': lambda I, g: T.gmap(lambda l: attrs_gate(I, l), g),
    'name': lambda I, g: T.gmap(lambda l: name_gate(I, l), g),
}


class Ob:
    def __init__(self, fn, cfg, ref, aspects=('value',), dask=False, pint=False, opaque=(), label='', refcfg=None, loose_types=True, known=(), refdask=None):
        self.fn, self.cfg, self.ref, self.aspects = fn, cfg, ref, aspects
        self.dask, self.pint, self.opaque, self.label = dask, pint, opaque, label
        self.refcfg = refcfg
        self.loose = loose_types
        self.refdask = dask if refdask is None else refdask
        # ((finding id, reference of the recorded defective behaviour), ...)
        self.known = known

    def variant(self, ref):
        return Ob(self.fn, self.cfg, ref, self.aspects, self.dask, self.pint, self.opaque, self.label, self.refcfg, self.loose, refdask=self.refdask)

    def inlined(self):
        return Ob(self.fn, self.cfg, self.ref, self.aspects, self.dask, self.pint, (), self.label, self.refcfg, self.loose, refdask=self.refdask)

    def name(self):
        c = ', '.join('%s=%s' % (k, show_spec(v)) for k, v in self.cfg.items())
        return '%s(%s)%s%s' % (self.fn, c, ' [dask]' if self.dask else '', ' ' + self.label if self.label else '')


def show_spec(v):
    if isinstance(v, str):
        return v
    if v[0] == 'c':
        return repr(v[1])
    if v[0] == 'other':
        return '<any other string>'
    return str(v[0])


def compare(ob):
    """-> (diffs, stats)"""
    t0 = time.time()
    T.reset()
    _axc.clear()
    r = run_fn(ob.fn, ob.cfg, dask=ob.dask, pint=ob.pint, opaque=ob.opaque)
    s = run_fn(ob.ref[1], ob.refcfg or ob.cfg, mods=[ob.ref[0]], dask=ob.refdask, pint=ob.pint, opaque=ob.opaque)
    out = []
    scope = fails_off(gnot(outscope(s)))
    rl, sl = fails_off(r.live), fails_off(s.live)
    both = gand(gand(rl, sl), scope)
    st = {'terms': 0, 'atoms': len(atoms_of(both)), 'aspects': list(ob.aspects)}
    sops = set()
    if any(a in ASPECT for a in ob.aspects):
        pr, ps = parts(r.I, r.value, rl), parts(s.I, s.value, sl)
        if both is FALSE:
            if gand(sl, scope) is not FALSE:
                out.append(Diff('raise', 'result', None, None, text='the function never returns for these inputs'))
        elif [p for p, _ in pr] != [p for p, _ in ps]:
            t = frozenset().union(*[T.taint_of(r.I.val(g)) for _, g in pr])
            out.append(Diff('struct', 'result', None, None, (), t, text='returns %d component(s), expected %d' % (len(pr), len(ps))))
        else:
            for (p, a), (_, b) in zip(pr, ps):
                for asp in ob.aspects:
                    if asp not in ASPECT:
                        continue
                    f = ASPECT[asp]
                    x = fails_off(f(r.I, T.constrain(a, gand(rl, scope), DEAD)))
                    y = fails_off(f(s.I, T.constrain(b, gand(sl, scope), DEAD)))
                    st['terms'] += sum(len(T.subterms(l)) for l in leaves(x)[:200] if isinstance(l, N))
                    sops = set().union(*[T.ops_of(l) for l in leaves(y) if isinstance(l, N)]) if leaves(y) else set()
                    cmp_gates(x, y, both, '%s of %s' % (asp, p), out, asp, opsb=sops)
    if 'raise' in ob.aspects:
        gr, gs = fails_off(raises(r)), fails_off(raises(s))
        n = len(out)
        cmp_gates(gr, gs, gand(scope, fails_off(gnot(implicit_fails(r)))), 'rejection of bad input', out, 'raise')
        if len(out) == n:
            tr, ts = types_of(r), types_of(s)
            for t in sorted(set(tr) | set(ts)):
                x, y = fails_off(raises(r, t)), fails_off(raises(s, t))
                if ob.loose and t in tr and t in ts:
                    continue
                cmp_gates(x, y, gand(scope, fails_off(gnot(implicit_fails(r)))), 'raises %s' % t, out, 'raise')
        bad = gand(gand(fails_off(implicit_fails(r)), sl), scope)
        if bad is not FALSE and len(out) == n:
            cmp_gates(bad, FALSE, TRUE, 'unintended failure (%s)' % ', '.join(sorted({str(e.data['type']) for e in r.events if e.kind == 'raise' and e.data['implicit']})),
                      out, 'fail')
    elif 'fail' in ob.aspects:
        # wherever the reference returns, the function returns
        bad = gand(gand(fails_off(raises(r)), sl), scope)
        if bad is not FALSE:
            cmp_gates(bad, FALSE, TRUE, 'rejects valid input (%s)' % ', '.join(types_of(r)), out, 'raise')
        bad = gand(gand(fails_off(implicit_fails(r)), sl), scope)
        if bad is not FALSE:
            cmp_gates(bad, FALSE, TRUE, 'unintended failure (%s)' % ', '.join(sorted({str(e.data['type']) for e in r.events if e.kind == 'raise' and e.data['implicit']})),
                      out, 'fail')
    if 'warn' in ob.aspects:
        cats = sorted({e.data.get('category') for q in (r, s) for e in q.events if e.kind == 'warn'}, key=str)
        for c in cats:
            x, y = fails_off(warns(r, c)), fails_off(warns(s, c))
            cmp_gates(x, y, gand(scope, both), 'warning %s' % c, out, 'warn')
    for d in out:
        d.ob = ob
        d.site = d.site or site_of(r, d) or (r.f.mod.rel, r.f.node.lineno, ob.fn)
    st['wall'] = time.time() - t0
    st['r'] = r
    st['s'] = s
    return out, st


def implicit_fails(r):
    return guard_of(r.events, lambda e: e.kind == 'raise' and e.data['implicit'])


def narrow(a, b, depth=0):
    """descend to the smallest differing operand"""
    if not isinstance(a, N) or not isinstance(b, N) or depth > 60:
        return a, b
    if a.op == b.op and a.param == b.param and len(a.args) == len(b.args):
        ds = [(x, y) for x, y in zip(a.args, b.args) if x.fp != y.fp]
        if len(ds) == 1:
            return narrow(ds[0][0], ds[0][1], depth + 1)
    return a, b


def site_of(r, d):
    if d.kind in ('raise', 'fail'):
        # the raise statement concerned
        best = None
        for e in r.events:
            if e.kind == 'raise' and e.data['implicit'] == (d.kind == 'fail'):
                best = best or e.site
        return best
    if isinstance(d.a, N):
        x, _ = narrow(d.a, d.b)
        for t in [x] + T.subterms(d.a):
            s = r.I.sites.get(t.fp)
            if s is not None:
                return s
    return None


def describe(d):
    if d.text:
        return d.text
    if d.a is None:
        return ', '.join(sorted(d.taint))
    a, b = narrow(d.a, d.b)
    s = 'computes %s where %s is required' % (T.show(a, 5)[:300], T.show(b, 5)[:300])
    if d.kind == 'raise':
        s = {True: 'raises where it must not', False: 'does not raise where it must'}[d.a is TRUE]
    if d.kind == 'fail':
        s = 'fails where a result is required'
    if d.kind == 'warn':
        s = {True: 'warns where it must not', False: 'does not warn where it must'}[d.a is TRUE]
    c = [('' if v else 'not ') + T.show(n, 4)[:120] for n, v in d.cond][:4]
    return s + (' when ' + ' and '.join(c) if c else '')
