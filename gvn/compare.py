"""Theory facts about atoms and comparison of gated values."""
from . import terms as T
from .terms import N, Ite, TRUE, FALSE, isnum, isconst, mkite, gand, gor, gnot, gimplies, ite, leaves, atoms_of

_axc = {}


def axioms(atoms):
    ats = sorted(atoms, key=lambda a: a.okey)
    key = tuple(a.okey for a in ats)
    if key in _axc:
        return _axc[key]
    r = TRUE
    by = {}
    for a in ats:
        for x in a.n.args:
            by.setdefault((a.ew, x.fp), []).append(a)
    seen = set()
    for grp in by.values():
        if len(grp) > 24:
            grp = grp[:24]
        for i, a in enumerate(grp):
            for b in grp[i + 1:]:
                if a is b or (a.okey, b.okey) in seen:
                    continue
                seen.add((a.okey, b.okey))
                f = fact(a, b)
                if f is not None:
                    r = gand(r, f)
    eqs = [a for a in ats if a.n.op == 'eq' and len(a.n.args) == 2][:24]
    pair = {}
    for a in eqs:
        pair[(a.ew, frozenset(x.fp for x in a.n.args))] = a
    for i, a in enumerate(eqs):
        for b in eqs[i + 1:]:
            d = {x.fp for x in a.n.args} ^ {x.fp for x in b.n.args}
            c = pair.get((a.ew, frozenset(d))) if len(d) == 2 and a.ew == b.ew else None
            if c is not None:
                r = gand(r, gimplies(gand(_b(a), _b(b)), _b(c)))
    _axc[key] = r
    return r


def _b(a):
    return mkite(a, TRUE, FALSE)


def excl(a, b):
    return gnot(gand(_b(a), _b(b)))


def imp(a, b):
    return gimplies(_b(a), _b(b))


def split2(a):
    """lt/le atom as (lo, hi, strict)"""
    if a.n.op in ('lt', 'le'):
        return a.n.args[0], a.n.args[1], a.n.op == 'lt'
    return None


def fact(a, b):
    x, y = a.n, b.n
    if x.op == 'eq' and y.op == 'eq':
        # common argument, two different constants
        for i in (0, 1):
            for j in (0, 1):
                if x.args[i].fp == y.args[j].fp:
                    p, q = x.args[1 - i], y.args[1 - j]
                    if (isconst(p) or p.op == 'other') and (isconst(q) or q.op == 'other') and p.fp != q.fp:
                        return excl(a, b)
        return None
    if x.op == 'ilt' and y.op == 'ilt' and len(x.args) == 2 and len(y.args) == 2 and x.args[0].fp == y.args[0].fp:
        if isnum(x.args[1]) and isnum(y.args[1]):
            return imp(a, b) if x.args[1].param <= y.args[1].param else imp(b, a)
    sx, sy = split2(a), split2(b)
    if sx and sy:
        f = None
        l1, h1, s1 = sx
        l2, h2, s2 = sy
        if l1.fp == l2.fp and h1.fp == h2.fp:
            return imp(a, b) if s1 else imp(b, a)
        if l1.fp == h2.fp and h1.fp == l2.fp:
            return excl(a, b) if (s1 or s2) else None
        # thresholds
        if l1.fp == l2.fp and isnum(h1) and isnum(h2):
            if h1.param < h2.param:
                return imp(a, b)
            if h1.param > h2.param:
                return imp(b, a)
        if h1.fp == h2.fp and isnum(l1) and isnum(l2):
            if l1.param > l2.param:
                return imp(a, b)
            if l1.param < l2.param:
                return imp(b, a)
        # x < c and c' < x
        if h1.fp == l2.fp and isnum(l1) and isnum(h2):
            if l1.param > h2.param or (l1.param == h2.param and (s1 or s2)):
                return excl(a, b)
        if l1.fp == h2.fp and isnum(h1) and isnum(l2):
            if l2.param > h1.param or (l2.param == h1.param and (s1 or s2)):
                return excl(a, b)
        return f
    for p, q, ap, aq in ((x, y, a, b), (y, x, b, a)):
        if p.op == 'isnan' and q.op in ('lt', 'le', 'eq') and any(z.fp == p.args[0].fp for z in q.args):
            if q.op == 'eq' or True:
                return excl(a, b)
        if p.op == 'eq' and q.op in ('lt', 'le') and {z.fp for z in p.args} == {z.fp for z in q.args}:
            return excl(a, b) if q.op == 'lt' else imp(ap, aq)
        if p.op == 'eq' and q.op in ('lt', 'le') and any(isnum(z) for z in p.args):
            c = [z for z in p.args if isnum(z)][0]
            o = [z for z in p.args if not isnum(z)]
            if o:
                o = o[0]
                l, h = q.args
                if l.fp == o.fp and isnum(h):
                    t = c.param < h.param or (q.op == 'le' and c.param == h.param)
                    return imp(ap, aq) if t else excl(a, b)
                if h.fp == o.fp and isnum(l):
                    t = l.param < c.param or (q.op == 'le' and c.param == l.param)
                    return imp(ap, aq) if t else excl(a, b)
        if p.op == 'eq' and q.op == 'ilt' and len(q.args) == 2 and any(isnum(z) for z in p.args) and isnum(q.args[1]):
            c = [z for z in p.args if isnum(z)][0]
            o = [z for z in p.args if not isnum(z)]
            if o and o[0].fp == q.args[0].fp:
                return imp(ap, aq) if c.param < q.args[1].param else excl(a, b)
        if p.op == 'truthy' and q.op == 'eq' and any(z.fp == p.args[0].fp for z in q.args):
            c = [z for z in q.args if z.fp != p.args[0].fp]
            if c and isconst(c[0]):
                return imp(aq, ap) if c[0].param else excl(a, b)
    return None


# ------------------------------------------------------------------ comparison
class Diff:
    """one difference between the analysed function and its reference"""

    def __init__(self, kind, where, a=None, b=None, cond=(), taint=frozenset(), site=None, text=None, note=None):
        self.kind, self.where, self.a, self.b, self.cond = kind, where, a, b, cond
        self.taint, self.site, self.text, self.note = taint, site, text, note

    @property
    def undecided(self):
        return bool(self.taint)


REFORM = set('''einsum dot matmul tensordot inner outer vectorize apply_along_axis stack concatenate vstack hstack column_stack
block r_ tile kron histogram bincount searchsorted digitize select choose piecewise convolve correlate comp compif cond lpop
fromiter reduce accumulate trapezoid trapz indices ogrid mgrid zip enumerate item_set setitem mset'''.split())

_rb = {}
ARITH = {'add': T.add, 'sub': T.sub, 'mul': T.mul, 'div': T.div, 'pow': T.power}


def rebuild(n, args):
    if all(a is b for a, b in zip(n.args, args)):
        return n
    if n.op in ARITH:
        return ARITH[n.op](*args)
    if n.op == 'neg':
        return T.neg(args[0])
    if n.op in T.EXP_FN and len(args) == 1:
        return T.fn(n.op, args[0])
    if n.op in ('minimum', 'maximum') and len(args) == 2:
        return T.minmax(n.op, *args)
    if n.op == 'lt' and len(args) == 2:
        return T.lt(*args)
    if n.op == 'le' and len(args) == 2:
        return T.le(*args)
    if n.op == 'eq':
        return T.eq(*args)
    if n.op == 'not':
        return T.notn(args[0])
    return T.H(n.op, tuple(args), n.param, isint=n.isint, kind=n.kind)


_choices = {}


def choices(n):
    """numbers of the predicates that select something inside n"""
    if not isinstance(n, N) or not n.args:
        return frozenset()
    r = _choices.get(n.fp)
    if r is None:
        r = frozenset().union(*[choices(a) for a in n.args])
        if n.op == 'pw':
            r |= {n.args[0].fp}
        _choices[n.fp] = r
    return r


def under(n, lits, memo):
    """rewrite the embedded selections of n by the control predicates decided on this path"""
    if not isinstance(n, N) or not n.args:
        return n
    r = memo.get(n.fp)
    if r is not None:
        return r
    if n.op == 'pw':
        c, hi, lo = n.args
        v = lits.get(c.fp)
        if v is None:
            c2 = under(c, lits, memo)
            # a selection nested in a branch of a selection on the same predicate is already decided
            h2 = under(hi, {**lits, c.fp: True}, {}) if c.fp in choices(hi) else under(hi, lits, memo)
            l2 = under(lo, {**lits, c.fp: False}, {}) if c.fp in choices(lo) else under(lo, lits, memo)
            if c2 is TRUE:
                r = h2
            elif c2 is FALSE:
                r = l2
            elif h2.fp == l2.fp:
                r = h2
            elif c2 is c and h2 is hi and l2 is lo:
                r = n
            else:
                r = T.pack(T.ite(T.mkite(T.atom(c2, True), TRUE, FALSE), h2.aux if h2.op == 'pw' else h2, l2.aux if l2.op == 'pw' else l2))
        else:
            r = under(hi if v else lo, lits, memo)
    elif n.kind == 'bool' and n.fp in lits:
        r = TRUE if lits[n.fp] else FALSE
    else:
        r = rebuild(n, [under(a, lits, memo) for a in n.args])
    memo[n.fp] = r
    return r


NONSTRICT = {'isnan', 'pw', 'isfinite', 'isinf', 'shape', 'ndim', 'size', 'dims', 'coords', 'nan_to_num', 'where', 'notnull', 'isnull', 'attrs', 'attr',
             'fillna', 'count', 'lt', 'le', 'eq', 'not', 'sign0'}
STRICT = {'add', 'sub', 'mul', 'div', 'neg', 'pow', 'sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'abs', 'log10', 'arcsin', 'arccos', 'arctan', 'minimum', 'maximum',
          'sinh', 'cosh', 'tanh', 'arctan2', 'floor', 'deg2rad', 'rad2deg'}


def strict_in(n, fps, memo=None):
    """does n become NaN whenever the term numbered in fps is NaN?"""
    memo = {} if memo is None else memo
    if not isinstance(n, N):
        return False
    if n.op == 'nan' or n.fp in fps:
        return True
    r = memo.get(n.fp)
    if r is None:
        memo[n.fp] = False
        r = memo[n.fp] = n.op in STRICT and any(strict_in(a, fps, memo) for a in n.args)
    return r


def strict_leaves(n):
    if n.op in STRICT and n.args:
        out = []
        for a in n.args:
            if not T.isnum(a):
                out += strict_leaves(a)
        return out
    return [n]


def nan_operands(lits, atoms):
    """terms that must be NaN on this path (an ordering test and its complement both fail)"""
    out = []
    neg = [a.n for k, a in atoms.items() if lits.get(k) is False and a.n.op in ('lt', 'le')]
    for i, a in enumerate(neg):
        for b in neg[i + 1:]:
            if a.args[0].fp == b.args[1].fp and a.args[1].fp == b.args[0].fp:
                out.append(a.args)
            # x<c1 fails and c2<x fails with c2 < c1
            for p, q in ((a, b), (b, a)):
                if p.args[0].fp == q.args[1].fp and T.isnum(p.args[1]) and T.isnum(q.args[0]) and q.args[0].param < p.args[1].param:
                    out.append((p.args[0],))
    for k, a in atoms.items():
        if a.n.op == 'isnan' and lits.get(k) is True:
            out.append((a.n.args[0],))
    return out


def nan_equal(x, y, lits, atoms):
    for ops in nan_operands(lits, atoms):
        ok = True
        for o in ops:
            if T.isnum(o):
                continue
            fps = {o.fp}
            for z in (x, y):
                if strict_in(z, fps):
                    continue
                ls = strict_leaves(o)
                if ls and all(strict_in(z, {l.fp}) for l in ls if not T.isnum(l)):
                    continue
                ok = False
        if ok:
            return True
    return False


LIMIT = 60000


def cmp_gates(x, y, cond, path, out, kind, opsb=None, limit=LIMIT, leafeq=None):
    """compare two gated terms wherever cond holds; appends at most a few Diffs to out"""
    count = [0]
    leafs = [0]
    seen = set()
    found = []

    def rec(c, x, y, lits, atoms):
        if c is FALSE or found and len(found) >= 3:
            return
        if x.key == y.key:
            return
        count[0] += 1
        if count[0] > limit:
            raise OverflowError
        a = T.top((c, x, y))
        if a is None:
            leaf(x, y, lits, atoms)
            return
        k = (T._kid(c), T._kid(x), T._kid(y))
        if k in seen:
            return
        before = leafs[0]
        (c1, c0), (x1, x0), (y1, y0) = T.cof(c, a), T.cof(x, a), T.cof(y, a)
        for v, cc, xx, yy in ((True, c1, x1, y1), (False, c0, x0, y0)):
            l2 = dict(lits)
            l2[a.okey] = v
            a2 = dict(atoms)
            a2[a.okey] = a
            rec(cc, xx, yy, l2, a2)
        if leafs[0] == before:
            seen.add(k)

    def feasible(lits, atoms):
        f = axioms(atoms.values())
        for k in sorted(lits):
            f = T.restrict(f, k, lits[k])
        return f is not FALSE

    def leaf(x, y, lits, atoms):
        leafs[0] += 1
        if not feasible(lits, atoms):
            return
        if leafeq is not None and leafeq(x, y):
            return
        if isinstance(x, N) and isinstance(y, N):
            nl = {k[1]: v for k, v in lits.items()}
            if any(z.op == 'pw' or z.kind == 'bool' for z in T.subterms(x) + T.subterms(y)):
                x2, y2 = under(x, nl, {}), under(y, nl, {})
                if x2.fp == y2.fp:
                    return
                x, y = x2, y2
            if deep_equal(x, y, {}):
                return
            if nan_equal(x, y, lits, atoms):
                return
        t = taint(x) | taint(y)
        for a in atoms.values():
            t = t | a.n.taint
        if not t and opsb is not None and isinstance(x, N):
            new = T.ops_of(x) & REFORM
            for a in atoms.values():
                new |= T.ops_of(a.n) & REFORM
            new -= opsb
            if new:
                t = frozenset(['formulated with ' + ', '.join(sorted(new))])
        if any(d.key == (getattr(x, 'fp', 0), getattr(y, 'fp', 0)) for d in found):
            return
        d = Diff(kind, path, x, y, [(atoms[k].n, lits[k]) for k in sorted(lits)], t)
        d.key = (getattr(x, 'fp', 0), getattr(y, 'fp', 0))
        found.append(d)
    try:
        rec(cond, x, y, {}, {})
    except (OverflowError, RecursionError):
        out.append(Diff(kind, path, None, None, (), frozenset(['too many paths to compare'])))
        return
    # a decided difference outranks an undecided one
    found.sort(key=lambda d: bool(d.taint))
    out.extend(found)


def taint(x):
    return x.taint if isinstance(x, N) else frozenset()


def deep_equal(x, y, memo):
    """equality up to gates that are equal under the theory facts inside the operands"""
    if x.fp == y.fp:
        return True
    k = (x.fp, y.fp)
    if k in memo:
        return memo[k]
    memo[k] = False
    r = False
    gx = x.aux if x.op == 'pw' and isinstance(x.aux, Ite) else None
    gy = y.aux if y.op == 'pw' and isinstance(y.aux, Ite) else None
    if gx is not None or gy is not None:
        o = []
        try:
            cmp_gates(gx or x, gy or y, TRUE, '', o, 'deep', limit=4000)
            r = not o
        except RecursionError:
            r = False
    elif x.op == y.op and x.param == y.param and len(x.args) == len(y.args) and x.args and x.op not in ('in', 'const'):
        r = all(deep_equal(a, b, memo) for a, b in zip(x.args, y.args))
        if not r and x.op in ('add', 'mul', 'eq', 'minimum', 'maximum') and len(x.args) == 2:
            r = deep_equal(x.args[0], y.args[1], memo) and deep_equal(x.args[1], y.args[0], memo)
    memo[k] = r
    return r


def cmp_bool(x, y, cond, path, out, kind):
    cmp_gates(x, y, cond, path, out, kind)


def fails_off(g, keep=()):
    """decide 'fails' atoms False (external operations succeed)"""
    for a in sorted(atoms_of(g).values(), key=lambda a: a.okey) if isinstance(g, Ite) else []:
        if a.n.op == 'fails' and a.n.param not in keep:
            g = T.restrict(g, a.okey, False)
    return g
