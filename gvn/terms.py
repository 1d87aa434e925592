"""Value numbers.

A term (class N) is a node of the value graph.  Equal terms get equal value
numbers (`fp`): arithmetic nodes are numbered in the field GF(2^61-1), so any
two ways of writing the same rational expression get the same number; all other
operations are numbered by a keyed hash of the operation and the numbers of its
operands (congruence).  Nothing is ever evaluated on data.

A gated value (leaf or Ite) is a multi-terminal decision diagram whose
decisions are canonical predicates ("atoms"); it is the gated-SSA join of the
values that reach a program point.  Atoms are either control predicates
(class 0) or element-wise predicates of a where() (class 1).
"""
from fractions import Fraction
import hashlib
import math

P = (1 << 61) - 1

DTYPES = False        # keep float literals and casts, report writes (gvn/dtypes.py)

_table = {}


def _h(op, param, fps):
    s = repr((op, param, fps)).encode()
    return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), 'big') % P


class N:
    __slots__ = ('op', 'args', 'param', 'fp', 'taint', 'isint', 'kind', 'aux', '_size')

    def __init__(self, op, args, param, fp, taint, isint, kind=None, aux=None):
        self.op, self.args, self.param, self.fp = op, args, param, fp
        self.taint, self.isint, self.kind, self.aux = taint, isint, kind, aux
        self._size = 1 + max([a._size for a in args if isinstance(a, N)], default=0)

    @property
    def key(self):
        return ('n', self.fp)

    def __repr__(self):
        return show(self, 6)


EMPTY = frozenset()


def _mk(op, args, param, fp, isint=False, kind=None, taint=None, aux=None):
    n = _table.get(fp)
    if n is not None:
        return n
    if taint is None:
        taint = EMPTY
        for a in args:
            if a.taint:
                taint = taint | a.taint
    n = N(op, tuple(args), param, fp, taint, isint, kind, aux)
    _table[fp] = n
    return n


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return _mk('const', (), v, _h('const', repr(v), ()), kind=type(v).__name__)
    if isinstance(v, int):
        return _mk('const', (), Fraction(v), v % P, isint=True, kind='int')
    if isinstance(v, float):
        if math.isnan(v):
            return _mk('nan', (), None, _h('nan', None, ()), kind='float')
        if math.isinf(v):
            return _mk('inf', (), v > 0, _h('inf', v > 0, ()), kind='float')
        p = _pi_const(v)
        if p is not None:
            return p
        v = Fraction(repr(v))
    if isinstance(v, complex):
        return _mk('complex', (), v, _h('complex', repr(v), ()))
    if isinstance(v, Fraction):
        fp = v.numerator % P * pow(v.denominator, P - 2, P) % P
        return _mk('const', (), v, fp, isint=v.denominator == 1, kind='num')
    raise TypeError(v)


_PI = {}
for _r in (Fraction(1), Fraction(2), Fraction(1, 2), Fraction(1, 4), Fraction(4), Fraction(1, 180),
           Fraction(1, 360), Fraction(2, 365), Fraction(1, 12), Fraction(2, 360), Fraction(1, 90)):
    _PI[_r] = _r


def _pi_const(v):
    if v == 0 or len(repr(abs(v))) < 12:
        return None
    for r in _PI:
        x = float(r) * math.pi
        if abs(v - x) <= 4e-16 * abs(x):
            return mul(const(r), PI)
        x = float(r) / math.pi
        if abs(v - x) <= 4e-16 * abs(x):
            return div(const(r), PI)
        if r != 1:
            x = 1 / float(r) / math.pi
            if abs(v - x) <= 4e-16 * abs(x):
                return div(const(1 / r), PI)
    return None


def isnum(n):
    return isinstance(n, N) and n.op == 'const' and isinstance(n.param, Fraction)


def isconst(n):
    return isinstance(n, N) and n.op == 'const'


PI = _mk('pi', (), None, _h('pi', None, ()), kind='float')
NAN = const(float('nan'))
TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)


def sym(name, kind=None, isint=False):
    return _mk('in', (), (name, kind), _h('in', (name, kind), ()), isint=isint, kind=kind)


def H(op, args=(), param=None, isint=False, kind=None, taint=None, aux=None):
    """uninterpreted operation"""
    return _mk(op, args, param, _h(op, _prep(param), tuple(a.fp for a in args)), isint, kind, taint, aux)


def _prep(p):
    if isinstance(p, tuple):
        return tuple(_prep(x) for x in p)
    if isinstance(p, (N, Ite)) or hasattr(p, 'key'):
        return p.key
    return p


def opaque(reason, args=(), param=None):
    t = frozenset([reason])
    for a in args:
        t = t | a.taint
    return H('opaque', args, (reason, param), taint=t)


# ------------------------------------------------------------------ arithmetic
def add(a, b):
    if isnum(a) and isnum(b):
        return const(a.param + b.param)
    return _mk('add', (a, b), None, (a.fp + b.fp) % P, isint=a.isint and b.isint)


def neg(a):
    if isnum(a):
        return const(-a.param)
    return _mk('neg', (a,), None, (-a.fp) % P, isint=a.isint)


def sub(a, b):
    if isnum(a) and isnum(b):
        return const(a.param - b.param)
    return _mk('sub', (a, b), None, (a.fp - b.fp) % P, isint=a.isint and b.isint)


def mul(a, b):
    if isnum(a) and isnum(b):
        return const(a.param * b.param)
    return _mk('mul', (a, b), None, a.fp * b.fp % P, isint=a.isint and b.isint)


def div(a, b):
    if isnum(a) and isnum(b) and b.param != 0:
        return const(a.param / b.param)
    if b.fp == 0:
        return H('div0', (a,))
    return _mk('div', (a, b), None, a.fp * pow(b.fp, P - 2, P) % P)


def power(a, b):
    if isnum(b):
        e = b.param
        if isnum(a) and e.denominator == 1 and (a.param != 0 or e >= 0) and abs(e) < 400:
            return const(a.param ** int(e))
        if e.denominator == 1 and abs(e) <= 400:
            e = int(e)
            if e < 0 and a.fp == 0:
                return H('div0', (a,), e)
            return _mk('pow', (a, b), None, pow(a.fp, e % (P - 1), P) if a.fp else (0 if e else 1), isint=a.isint and e >= 0)
        if e == Fraction(1, 2):
            return fn('sqrt', a)
    return H('pow', (a, b))


EXP_FN = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'exp', 'sqrt', 'log',
          'abs', 'floor', 'ceil', 'isnan', 'sign', 'log10', 'log2', 'log1p', 'expm1', 'rint', 'trunc', 'conj',
          'isfinite', 'isinf', 'cbrt'}


def _canon_sign(a):
    """(sign, |a|-representative): a or -a, whichever has the smaller number"""
    if a.fp <= P - a.fp:
        return 1, a
    return -1, neg(a)


def fn(name, a):
    if name == 'log':
        if isnum(a) and a.param == 1:
            return ZERO
        if a.op == 'mul':
            return add(fn('log', a.args[0]), fn('log', a.args[1]))
        if a.op == 'div':
            return sub(fn('log', a.args[0]), fn('log', a.args[1]))
        if a.op == 'pow' and isnum(a.args[1]):
            return mul(a.args[1], fn('log', a.args[0]))
        if a.op == 'exp':
            return a.args[0]
    if name == 'exp' and isnum(a) and a.param == 0:
        return ONE
    if name in ('sin', 'tan', 'arcsin', 'arctan', 'sinh', 'tanh', 'sign'):
        s, b = _canon_sign(a)
        r = H(name, (b,))
        return r if s == 1 else neg(r)
    if name in ('cos', 'cosh'):
        return H(name, (_canon_sign(a)[1],))
    if name == 'abs':
        if isnum(a):
            return const(abs(a.param))
        return H('abs', (_canon_sign(a)[1],), isint=a.isint)
    if name in ('floor', 'ceil', 'trunc', 'rint'):
        if isnum(a):
            return const({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rint': round}[name](a.param))
        if a.isint:
            return a
        if name == 'ceil':
            return neg(H('floor', (neg(a),), isint=True))
        return H(name, (a,), isint=True)
    if name == 'isnan':
        if isnum(a) or a.isint:
            return FALSE
        if a.op == 'nan':
            return TRUE
        if a.op == 'neg':
            return fn('isnan', a.args[0])
    if name == 'sqrt' and isnum(a) and a.param >= 0:
        r = math.isqrt(a.param.numerator), math.isqrt(a.param.denominator)
        if r[0] ** 2 == a.param.numerator and r[1] ** 2 == a.param.denominator:
            return const(Fraction(r[0], r[1]))
    return H(name, (a,))


def minmax(name, a, b):
    if isnum(a) and isnum(b):
        return const((min if name == 'minimum' else max)(a.param, b.param))
    if a.fp == b.fp:
        return a
    if a.fp > b.fp:
        a, b = b, a
    return H(name, (a, b), isint=a.isint and b.isint)


# ------------------------------------------------------------------ linear split
def expand(n, limit=400):
    """list of (Fraction, N monomial) whose sum is n, or None"""
    out = {}

    def rec(n):
        if isnum(n):
            return {1: (n.param, ONE)}
        if n.op == 'add' or n.op == 'sub':
            a, b = rec(n.args[0]), rec(n.args[1])
            r = dict(a)
            s = 1 if n.op == 'add' else -1
            for k, (c, m) in b.items():
                c0 = r[k][0] if k in r else 0
                r[k] = (c0 + s * c, m)
            return {k: v for k, v in r.items() if v[0] != 0}
        if n.op == 'neg':
            return {k: (-c, m) for k, (c, m) in rec(n.args[0]).items()}
        if n.op == 'mul':
            return mulp(rec(n.args[0]), rec(n.args[1]))
        if n.op == 'pow' and isnum(n.args[1]) and n.args[1].param.denominator == 1 and 1 <= n.args[1].param <= 8:
            a = rec(n.args[0])
            if len(a) > 1:
                r = a
                for _ in range(int(n.args[1].param) - 1):
                    r = mulp(r, a)
                return r
            return {m.fp: (c ** int(n.args[1].param), power(m, n.args[1])) for c, m in a.values()} and \
                {power(m, n.args[1]).fp: (c ** int(n.args[1].param), power(m, n.args[1])) for c, m in a.values()}
        if n.op == 'div':
            a, b = rec(n.args[0]), rec(n.args[1])
            if len(b) == 1:
                (cb, mb), = b.values()
                r = {}
                for c, m in a.values():
                    q = div(m, mb)
                    c2 = c / cb + (r[q.fp][0] if q.fp in r else 0)
                    r[q.fp] = (c2, q)
                return r
            r = {}
            for c, m in a.values():
                q = div(m, n.args[1])
                r[q.fp] = (c + (r[q.fp][0] if q.fp in r else 0), q)
            return r
        return {n.fp: (Fraction(1), n)}

    def mulp(a, b):
        if len(a) * len(b) > limit:
            raise OverflowError
        r = {}
        for c1, m1 in a.values():
            for c2, m2 in b.values():
                m = mul(m1, m2)
                k = m.fp
                r[k] = (c1 * c2 + (r[k][0] if k in r else 0), m)
        return {k: v for k, v in r.items() if v[0] != 0}

    try:
        return [v for v in rec(n).values()]
    except (OverflowError, RecursionError, ZeroDivisionError):
        return None


def linear(op, x, param=None, extra=(), split=True, kind=None, taint=None):
    """a linear operation: constant factors and (split) sums move outside"""
    ex = expand(x)
    if not ex:
        if ex == []:
            return ZERO
        return H(op, (x,) + tuple(extra), param, kind=kind, taint=taint)
    if len(ex) > 1 and not split:
        # pull out a common rational factor only
        ex.sort(key=lambda cm: cm[1].fp)
        c0 = ex[0][0]
        if c0 == 1:
            return H(op, (x,) + tuple(extra), param, kind=kind)
        y = div(x, const(c0))
        return mul(const(c0), H(op, (y,) + tuple(extra), param, kind=kind))
    r = None
    for c, m in sorted(ex, key=lambda cm: cm[1].fp):
        t = H(op, (m,) + tuple(extra), param, kind=kind)
        if c != 1:
            t = mul(const(c), t)
        r = t if r is None else add(r, t)
    return r


# ------------------------------------------------------------------ gates
_NOGRP = frozenset()


class Ite:
    __slots__ = ('atom', 'hi', 'lo', 'key', 'grps')

    def __init__(self, atom, hi, lo):
        self.atom, self.hi, self.lo = atom, hi, lo
        g = getattr(hi, 'grps', _NOGRP) | getattr(lo, 'grps', _NOGRP)
        self.grps = g | {atom.grp} if atom.grp is not None else g
        self.key = ('i', atom.okey, _kid(hi), _kid(lo))

    def __repr__(self):
        return 'if(%r){%r}else{%r}' % (self.atom, self.hi, self.lo)


class Atom:
    __slots__ = ('n', 'ew', 'okey', 'grp')

    def __init__(self, n, ew):
        self.n, self.ew = n, ew
        # x == 'a' excludes x == 'b'
        self.grp = None
        if n.op == 'eq' and len(n.args) == 2:
            ks = [x.op == 'const' and isinstance(x.param, str) for x in n.args]
            if ks.count(True) == 1:
                self.grp = n.args[0 if ks[1] else 1].fp
        self.okey = (1 if ew else 0, n._size, n.fp)          # conditions on the parts of a term are decided before conditions on the term

    def __repr__(self):
        return show(self.n, 5)


_kids = {}


def _kid(g):
    k = g.key
    if k[0] != 'i':
        return k
    i = _kids.get(k)
    if i is None:
        i = _kids[k] = ('#', len(_kids))
    return i


_ites = {}
_atoms = {}


def atom(n, ew):
    k = (bool(ew), n.fp)
    a = _atoms.get(k)
    if a is None:
        a = _atoms[k] = Atom(n, bool(ew))
    return a


def _exclude(g, grp):
    memo = {}

    def rec(x):
        if not isinstance(x, Ite) or grp not in x.grps:
            return x
        r = memo.get(id(x))
        if r is None:
            r = memo[id(x)] = rec(x.lo) if x.atom.grp == grp else mkite(x.atom, rec(x.hi), rec(x.lo))
        return r
    return rec(g)


def mkite(a, hi, lo):
    if a.grp is not None and isinstance(hi, Ite) and a.grp in hi.grps:
        hi = _exclude(hi, a.grp)
    if hi is lo or hi.key == lo.key:
        return hi
    k = (a.okey, _kid(hi), _kid(lo))
    r = _ites.get(k)
    if r is None:
        r = _ites[k] = Ite(a, hi, lo)
    return r


def isleaf(g):
    return not isinstance(g, Ite)


def cof(g, a):
    """(hi, lo) cofactors of g by atom a (a is <= g's top atom)"""
    if isinstance(g, Ite) and g.atom is a:
        return g.hi, g.lo
    return g, g


def top(gs):
    t = None
    for g in gs:
        if isinstance(g, Ite) and (t is None or g.atom.okey < t.okey):
            t = g.atom
    return t


def ite(c, x, y):
    """c: gated boolean (leaves TRUE/FALSE)"""
    memo = {}

    def rec(c, x, y):
        if c is TRUE:
            return x
        if c is FALSE:
            return y
        if x.key == y.key:
            return x
        k = (_kid(c), _kid(x), _kid(y))
        r = memo.get(k)
        if r is None:
            a = top((c, x, y))
            c1, c0 = cof(c, a)
            x1, x0 = cof(x, a)
            y1, y0 = cof(y, a)
            r = memo[k] = mkite(a, rec(c1, x1, y1), rec(c0, x0, y0))
        return r
    return rec(c, x, y)


def gnot(c):
    return ite(c, FALSE, TRUE)


def gand(a, b):
    return ite(a, b, FALSE)


def gor(a, b):
    return ite(a, TRUE, b)


def gimplies(a, b):
    return ite(a, b, TRUE)


def lift(f, gs, ew=True):
    """apply f on the leaves of gs.  With ew=False the operation is not
    element-wise: sub-diagrams of element-wise atoms are packed first."""
    memo = {}

    def rec(gs):
        k = tuple(_kid(g) for g in gs)
        r = memo.get(k)
        if r is not None:
            return r
        a = top(gs)
        if a is None:
            r = f(*[unpack0(g) for g in gs])
        elif a.ew and not ew:
            gs2 = tuple(pack(g) for g in gs)
            r = f(*gs2)
        else:
            pairs = [cof(g, a) for g in gs]
            r = mkite_ordered(a, rec(tuple(p[0] for p in pairs)), rec(tuple(p[1] for p in pairs)))
        memo[k] = r
        return r
    if ew:
        gs = tuple(unpack(g) for g in gs)
    return rec(tuple(gs))


def mkite_ordered(a, hi, lo):
    """like mkite, but hi/lo may themselves have smaller atoms on top"""
    t = top((hi, lo))
    if t is None or a.okey < t.okey:
        return mkite(a, hi, lo)
    return ite(mkite(a, TRUE, FALSE), hi, lo)


def unpack0(g):
    return g


def unpack(g):
    """expand packed element-wise diagrams at the leaves"""
    if isinstance(g, N):
        return g.aux if g.op == 'pw' else g
    if not isinstance(g, Ite):
        return g
    if not _has_pw(g):
        return g

    memo = {}

    def rec(g):
        if isinstance(g, N) and g.op == 'pw':
            return g.aux
        if not isinstance(g, Ite):
            return g
        r = memo.get(id(g))
        if r is None:
            r = memo[id(g)] = mkite_ordered(g.atom, rec(g.hi), rec(g.lo))
        return r
    return rec(g)


def _has_pw(g):
    return any(isinstance(l, N) and l.op == 'pw' for l in leaves(g))


def pack(g):
    """turn a (sub)diagram of element-wise atoms with term leaves into a term"""
    if not isinstance(g, Ite):
        return g
    a = g.atom
    hi, lo = pack(g.hi), pack(g.lo)
    n = minmax_pattern(a, hi, lo)
    if n is not None:
        return n
    return H('pw', (a.n, hi, lo), None, aux=g, taint=a.n.taint | hi.taint | lo.taint)


def minmax_pattern(a, hi, lo):
    if not isinstance(hi, N) or not isinstance(lo, N):
        return None
    n = a.n
    if not (isconst(hi) or hi.isint and lo.isint):
        return None         # a missing value makes the comparison false, while minimum() and maximum() return it
    if n.op in ('lt', 'le'):
        x, y = n.args
        if hi.fp == x.fp and lo.fp == y.fp:
            return minmax('minimum', x, y)
        if hi.fp == y.fp and lo.fp == x.fp:
            return minmax('maximum', x, y)
    return None


def leaves(g):
    out, seen, st = [], set(), [g]
    while st:
        x = st.pop()
        if isinstance(x, Ite):
            if id(x) in seen:
                continue
            seen.add(id(x))
            st.append(x.hi)
            st.append(x.lo)
        else:
            out.append(x)
    return out


def atoms_of(g, acc=None):
    acc = {} if acc is None else acc
    seen, st = set(), [g]
    while st:
        x = st.pop()
        if isinstance(x, Ite):
            if id(x) in seen:
                continue
            seen.add(id(x))
            acc[x.atom.okey] = x.atom
            st.append(x.hi)
            st.append(x.lo)
    return acc


def gmap(f, g):
    """map leaves (control structure kept)"""
    memo = {}

    def rec(x):
        if not isinstance(x, Ite):
            return f(x)
        r = memo.get(id(x))
        if r is None:
            r = memo[id(x)] = mkite_ordered(x.atom, rec(x.hi), rec(x.lo))
        return r
    return rec(g)


def restrict(g, okey, val):
    memo = {}

    def rec(x):
        if not isinstance(x, Ite) or x.atom.okey > okey:
            return x
        r = memo.get(id(x))
        if r is None:
            if x.atom.okey == okey:
                r = x.hi if val else x.lo
            else:
                r = mkite(x.atom, rec(x.hi), rec(x.lo))
            memo[id(x)] = r
        return r
    return rec(g)


def gdrop(g, a):
    """g where the atom a is false"""
    memo = {}

    def rec(x):
        if not isinstance(x, Ite):
            return x
        r = memo.get(id(x))
        if r is None:
            r = memo[id(x)] = rec(x.lo) if x.atom.okey == a.okey else mkite(x.atom, rec(x.hi), rec(x.lo))
        return r
    return rec(g)


def constrain(g, cond, dead):
    """value of g where cond holds; `dead` elsewhere (canonical for comparison)"""
    return ite(cond, g, dead)


# ------------------------------------------------------------------ comparison terms
def lt(a, b):
    if isnum(a) and isnum(b):
        return TRUE if a.param < b.param else FALSE
    if a.fp == b.fp:
        return FALSE
    if a.isint and b.isint:
        # integers: a < b  <=>  a - b < 0, normalised on the difference
        return _intlt(a, b)
    return H('lt', (a, b), kind='bool')


def le(a, b):
    if isnum(a) and isnum(b):
        return TRUE if a.param <= b.param else FALSE
    if a.isint and b.isint:
        return _intlt(a, add(b, ONE))
    return H('le', (a, b), kind='bool')


NONNEG = {'ndim', 'len', 'size', 'lcount', 'lenset'}


def _intlt(a, b):
    """a < b over integers, with a canonical orientation: either lt(d,0) or not lt(-d,1)"""
    d = sub(a, b)                      # d < 0
    if isnum(d):
        return TRUE if d.param < 0 else FALSE
    ex = expand(d)
    if ex is None:
        return H('ilt', (d,), kind='bool')
    c = sum((c for c, m in ex if m is ONE), Fraction(0))
    rest = sorted([(m.fp, k, m) for k, m in ex if m is not ONE], key=lambda t: t[0])
    if not rest:
        return TRUE if c < 0 else FALSE
    r = None
    for _, k, m in rest:
        t = mul(const(k), m) if k != 1 else m
        r = t if r is None else add(r, t)
    if len(rest) == 1 and rest[0][2].op in NONNEG:
        if rest[0][1] > 0 and -c <= 0:
            return FALSE
        if rest[0][1] < 0 and c < 0:
            return TRUE
    # r + c < 0  <=>  r < -c ;  orient so that the leading coefficient is positive
    if rest[0][1] > 0:
        return H('ilt', (r, const(-c)), kind='bool')
    # -(r') + c < 0 <=> r' > c <=> not (r' < c+1)
    return notn(H('ilt', (neg(r), const(c + 1)), kind='bool'))


def notn(n):
    if n is TRUE:
        return FALSE
    if n is FALSE:
        return TRUE
    if n.op == 'not':
        return n.args[0]
    return H('not', (n,), kind='bool')


def eq(a, b):
    if a.fp == b.fp:
        return TRUE if a.op != 'nan' else FALSE
    if isconst(a) and isconst(b):
        return FALSE
    ka, kb = vkind(a), vkind(b)
    if ka and kb and ka != kb and 'any' not in (ka, kb):
        return FALSE
    if (a.op == 'other' and (isconst(b) or b.op == 'other')) or (b.op == 'other' and isconst(a)):
        return FALSE
    if ka == 'num' and kb == 'num' and not (a.op == 'in' or b.op == 'in') or (ka == 'num' and (isnum(a) or isnum(b))):
        # numbers: normalise on the difference up to sign
        if not (isnum(a) or isnum(b)):
            s, d = _canon_sign(sub(a, b))
            return H('eq0', (d,), kind='bool')
    if a.fp > b.fp:
        a, b = b, a
    return H('eq', (a, b), kind='bool')


def vkind(n):
    k = n.kind
    if k in ('int', 'float', 'num', 'Fraction'):
        return 'num'
    if isnum(n) or n.isint:
        return 'num'
    if k in ('str', 'NoneType', 'bool', 'tuple'):
        return k
    return None


# ------------------------------------------------------------------ printing / queries
_INF = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'lt': '<', 'le': '<=', 'eq': '==', 'pow': '**', 'ilt': '<'}


def show(n, depth=8):
    if n is None:
        return '-'
    if isinstance(n, Ite):
        if depth <= 0:
            return '...'
        return '[%s ? %s : %s]' % (show(n.atom.n, depth - 1), show(n.hi, depth - 1), show(n.lo, depth - 1))
    if not isinstance(n, N):
        return str(n)
    if n.op == 'const':
        v = n.param
        if isinstance(v, Fraction):
            if v.denominator == 1:
                return str(v.numerator)
            return repr(float(v))
        return repr(v)
    if n.op == 'in':
        return str(n.param if isinstance(n.param, str) else n.param[0])
    if depth <= 0:
        return '…'
    if n.op in _INF and len(n.args) == 2:
        return '(%s %s %s)' % (show(n.args[0], depth - 1), _INF[n.op], show(n.args[1], depth - 1))
    if n.op == 'neg':
        return '-' + show(n.args[0], depth - 1)
    if n.op == 'pw':
        return 'where(%s, %s, %s)' % tuple(show(a, depth - 1) for a in n.args)
    p = '' if n.param is None else '{%s}' % _shp(n.param)
    return '%s%s(%s)' % (n.op, p, ', '.join(show(a, depth - 1) for a in n.args))


def _shp(p):
    if isinstance(p, tuple):
        return ','.join(_shp(x) for x in p)
    if isinstance(p, (N, Ite)):
        return show(p, 3)
    return str(p)


def subterms(n):
    seen, st, out = set(), [n], []
    while st:
        x = st.pop()
        if isinstance(x, Ite):
            if id(x) in seen:
                continue
            seen.add(id(x))
            st += [x.atom.n, x.hi, x.lo]
            continue
        if not isinstance(x, N) or x.fp in seen:
            continue
        seen.add(x.fp)
        out.append(x)
        st.extend(x.args)
        if isinstance(x.param, tuple):
            st.extend(y for y in x.param if isinstance(y, (N, Ite)))
    return out


def taint_of(g):
    t = frozenset()
    for x in subterms(g):
        if x.taint:
            t = t | x.taint
    return t


def ops_of(g):
    return {x.op for x in subterms(g)}


# ------------------------------------------------------------------ one table per obligation
_base = None


def reset():
    """forget every value number except those created while the engine was loaded"""
    global _base
    if _base is None:
        _base = dict(_table), dict(_atoms)
    _table.clear()
    _table.update(_base[0])
    _atoms.clear()
    _atoms.update(_base[1])
    _ites.clear()
    _kids.clear()
