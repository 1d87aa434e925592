"""What becomes of a missing value.

The result is evaluated once more with the cell of one input missing (NaN): comparisons with it are false, arithmetic with it is missing,
a whole number made of it is arbitrary.  Every way out of the function must then give a missing cell, the caller's fill value, or a value that
does not depend on that input in that case at all; and no error may be raised that depends on the cell being missing."""
from . import terms as T
from .terms import N, Ite, TRUE, FALSE, leaves
from .local import META, ELEM, REDUCE

STRICT = {'add', 'sub', 'mul', 'div', 'pow', 'neg', 'exp', 'log', 'log2', 'log10', 'log1p', 'expm1', 'sqrt', 'abs', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan',
          'arctan2', 'sinh', 'cosh', 'tanh', 'maximum', 'minimum', 'outer', 'mod', 'floordiv', 'floor', 'ceil', 'round', 'rint', 'sign', 'hypot', 'cbrt', 'deg2rad', 'rad2deg',
          'square', 'reciprocal', 'clip', 'gradient', 'cumsum', 'diff', 'real', 'conj', 'radians', 'degrees'}
SAME = {'astype', 'asarray', 'rename', 'expand_dims', 'wrap', 'setname', 'setattrs', 'drop_vars', 'reshape', 'ravel', 'flip', 'roll', 'transpose', 'T', 'squeeze',
        'swapaxes', 'moveaxis', 'compute', 'broadcast', 'atleast1', 'newaxis', 'copy', 'full_like_of', 'flatten', 'pw', 'setcoord', 'cf.guess', 'chunk', 'broadcast_to',
        'isel', 'sel', 'star', 'assign_coords'}
CMP = {'lt', 'le', 'eq', 'ne'}
NANRED = {'nansum', 'nanmean', 'nanmax', 'nanmin', 'nanmedian', 'nanstd', 'nanprod', 'count'}

MISSING, FREE = 'missing', 'free'


class Eval:
    def __init__(self, name, skipna, scalar=False):
        self.x, self.skipna, self.scalar = name, skipna, scalar
        self.memo, self.tmemo, self.dmemo = {}, {}, {}
        self.unknown = {}

    # ---- does a term look at the values of the input?
    def dep(self, n):
        if isinstance(n, Ite):
            return self.dep(n.atom.n) or self.dep(n.hi) or self.dep(n.lo)
        if not isinstance(n, N):
            return False
        r = self.dmemo.get(n.fp)
        if r is None:
            self.dmemo[n.fp] = False
            if n.op == 'in':
                r = n.param == self.x
            elif n.op in META and n.op not in ('star',) or n.op in ('len', 'dims', 'keys', 'coords', 'autodims', 'lenset'):
                r = False
            elif n.op == 'call' and str(n.param).rsplit('.', 1)[-1] in ('is_duck_array', 'is_chunked_array', 'is_scalar', 'isscalar', 'shape', 'ndim', 'size'):
                r = False
            elif n.op == 'wrap':
                r = self.dep(n.args[0])
            else:
                r = any(self.dep(a) for a in n.args) or (n.op == 'pw' and self.dep(n.aux))
            self.dmemo[n.fp] = r
        return r

    # ---- truth of a condition: True, False or None (does not depend on the missing cell alone)
    def tri(self, n):
        r = self.tmemo.get(n.fp, self)
        if r is self:
            r = self.tmemo[n.fp] = self._tri(n)
        return r

    def _tri(self, n):
        if n is TRUE or n is FALSE:
            return n is TRUE
        if self.scalar and n.op in ('isscalar', 'call') and any(isinstance(a, N) and a.op == 'in' and a.param == self.x for a in n.args) \
                and (n.op == 'isscalar' or str(n.param).endswith('isscalar')):
            return True
        if not self.dep(n):
            return None
        op = n.op
        if op in ('lt', 'le', 'eq', 'ilt', 'ile', 'eq0', 'isfinite', 'notnull'):
            if any(self.val(a) == {MISSING} for a in n.args):
                return False
            return None
        if op in ('ne', 'isnan', 'isnull'):
            if any(self.val(a) == {MISSING} for a in n.args):
                return True
            return None
        if op in ('isinf',):
            return False
        if op == 'not':
            r = self.tri(n.args[0])
            return None if r is None else not r
        if op in ('and', 'or'):
            rs = [self.tri(a) for a in n.args]
            stop = op == 'or'
            if stop in rs:
                return stop
            return None if None in rs else not stop
        if op == 'any':
            return True if self.tri(n.args[0]) is True else None
        if op == 'all':
            return False if self.tri(n.args[0]) is False else None
        if op == 'where':
            c = self.tri(n.args[0])
            if c is not None:
                return self.tri(n.args[1 if c else 2])
            a, b = self.tri(n.args[1]), self.tri(n.args[2])
            return a if a == b else None
        if op in ('truthy', 'pw', 'wrap', 'astype', 'asarray', 'ravel', 'reshape'):
            return self.tri(n.aux if op == 'pw' else n.args[0])
        return None

    # ---- what a value can be
    def val(self, n):
        if isinstance(n, Ite):
            c = self.tri(n.atom.n)
            if c is not None:
                return self.val(n.hi if c else n.lo)
            return self.val(n.hi) | self.val(n.lo)
        if not isinstance(n, N):
            return frozenset([FREE])
        r = self.memo.get(n.fp)
        if r is None:
            self.memo[n.fp] = frozenset([FREE])
            r = self.memo[n.fp] = frozenset(self._val(n))
        return r

    def bad(self, why):
        return {('bad', why)}

    def _val(self, n):
        op = n.op
        if op == 'nan':
            return {MISSING}
        if op == 'in' and n.param == self.x:
            return {MISSING}
        if not self.dep(n):
            if op in ('full_like', 'full') and len(n.args) > 1:
                return self.val(n.args[1])
            if op == 'where':
                return self.val(n.args[1]) | self.val(n.args[2])
            return {FREE}
        if op == 'where':
            c = self.tri(n.args[0])
            if c is not None:
                return self.val(n.args[1 if c else 2])
            return self.val(n.args[1]) | self.val(n.args[2])
        if op == 'pw':
            return self.val(n.aux)
        if op in ('lt', 'le', 'eq', 'ne', 'not', 'and', 'or', 'isnan', 'isnull', 'isfinite', 'notnull', 'any', 'all'):
            return {FREE}
        if op == 'full_like':
            return self.val(n.args[1])
        if op == 'trunc':
            v = self.val(n.args[0])
            return (v - {MISSING}) | self.bad('a whole number is made of a missing value') if MISSING in v else v
        if op == 'index':
            a, i = self.val(n.args[0]), frozenset().union(*[self.val(k) for k in n.args[1:]])
            if any(isinstance(k, tuple) for k in i) or MISSING in i:
                return self.bad('a missing value is used as an index')
            return a
        if op in ('nzmin', 'nzmax'):
            if self.tri(n.args[0]) is False:
                return self.bad('the first or last of no elements is taken (an error)')
            return {FREE}
        if op.rsplit('.', 1)[-1] in ('fillna', 'nan_to_num', 'interpolate_na', 'ffill', 'bfill', 'dropna') and any(MISSING in self.val(a) for a in n.args[:1]):
            return self.bad('a missing value is filled in')
        if op in ('fmin', 'fmax'):
            return frozenset().union(*[self.val(a) for a in n.args]) - {MISSING} or {MISSING}
        if op in ('store', 'lset'):
            return self.val(n.args[0]) | self.val(n.args[-1])
        if op in ('map', 'comp'):
            v = self.val(n.args[-1])
            if MISSING in v and any(isinstance(k, tuple) for k in v):
                self.unknown['loop'] = n            # conditions of an element's own run are not separated here
                return {MISSING}
            return v
        if op in NANRED or op in ('sum', 'mean', 'max', 'min', 'std', 'var', 'median', 'prod', 'cumsum') and self.skipna:
            return {FREE}
        if op in STRICT or op in REDUCE:
            vs = [self.val(a) for a in n.args if not (isinstance(a, N) and a.op == 'kw')]
            wrong = {k for v in vs for k in v if isinstance(k, tuple)}
            if any(v == {MISSING} for v in vs):
                return {MISSING} | wrong
            return frozenset().union(*vs)
        if op in SAME:
            return self.val(n.args[0])
        if op in ('list', 'tuple', 'slice'):
            return frozenset().union(*[self.val(a) for a in n.args])
        self.unknown[op] = n
        return {FREE, MISSING}


def bound(n, b):
    """a comparison with a number, as (term, side, number, strict)"""
    if n.op not in ('lt', 'le') or len(n.args) != 2:
        return None
    x, y = n.args
    strict = (n.op == 'lt') == b
    if T.isnum(y) and not T.isnum(x):
        return x.fp, 'hi' if b else 'lo', float(y.param), strict
    if T.isnum(x) and not T.isnum(y):
        return y.fp, 'lo' if b else 'hi', float(x.param), strict
    return None


def feasible(p):
    """can the comparisons with numbers on a path hold together?"""
    iv = {}
    for a, b in p:
        k = bound(a.n, b)
        if k is None:
            continue
        fp, side, c, strict = k
        lo, ls, hi, hs = iv.get(fp, (float('-inf'), False, float('inf'), False))
        if side == 'lo' and (c > lo or c == lo and strict):
            lo, ls = c, strict
        if side == 'hi' and (c < hi or c == hi and strict):
            hi, hs = c, strict
        if lo > hi or lo == hi and (ls or hs):
            return False
        iv[fp] = (lo, ls, hi, hs)
    return True


def paths(v, ev, limit=4000):
    """ways through a gated value: (atoms chosen freely, value) after the comparisons with the missing cell are decided"""
    out, st = [], [((), v)]
    while st:
        p, x = st.pop()
        if isinstance(x, Ite):
            c = ev.tri(x.atom.n)
            if c is not None:
                st.append((p, x.hi if c else x.lo))
            else:
                known = dict((a.okey, b) for a, b in p)
                if x.atom.okey in known:
                    st.append((p, x.hi if known[x.atom.okey] else x.lo))
                    continue
                st.append((p + ((x.atom, True),), x.hi))
                st.append((p + ((x.atom, False),), x.lo))
        elif feasible(p):
            out.append((p, x))
        if len(out) > limit:
            break
    return out


def under(v, p):
    """the values the result can have on a path, for any value of the input"""
    out, st, steps = {}, [(p, v)], 0
    while st and steps < 20000:
        steps += 1
        q, x = st.pop()
        if isinstance(x, Ite):
            k = next((b for a, b in q if a.okey == x.atom.okey), None)
            for b, y in ((True, x.hi), (False, x.lo)):
                if k is None:
                    r = q + ((x.atom, b),)
                    if bound(x.atom.n, b) is None or feasible(r):
                        st.append((r, y))
                elif k == b:
                    st.append((q, y))
        else:
            out[x.fp if isinstance(x, N) else id(x)] = x
    return list(out.values())


def reaches(live, p, ev):
    """does a call return on this path?"""
    st, steps = [(p, live)], 0
    while st and steps < 20000:
        steps += 1
        q, x = st.pop()
        if isinstance(x, Ite):
            c = ev.tri(x.atom.n)
            if c is None:
                c = next((b for a, b in q if a.okey == x.atom.okey), None)
            for b, y in ((True, x.hi), (False, x.lo)):
                if c is None:
                    r = q + ((x.atom, b),)
                    if bound(x.atom.n, b) is None or feasible(r):
                        st.append((r, y))
                elif c == b:
                    st.append((q, y))
        elif x is not FALSE:
            return True
    return False


def check(v, name, skipna, live=TRUE, fills=('tfill',), scalar=False):
    """findings for the result v when a cell of the input `name` is missing, and operations that are not modelled"""
    ev = Eval(name, skipna, scalar)
    out = []
    for p, x in paths(v, ev):
        if not isinstance(x, N):
            continue
        s = ev.val(x)
        if s == {MISSING} or not reaches(live, p, ev):
            continue
        for b in s:
            if isinstance(b, tuple):
                out.append((b[1], x))
        if FREE in s:
            if x.op == 'in' and x.param in fills:
                continue
            if not ev.dep(x):
                if all(isinstance(y, N) and y.fp == x.fp for y in under(v, p)):
                    continue
                out.append(('a missing value gives %s' % T.show(x, 3)[:120], x))
            elif not ev.unknown and not any(isinstance(b, tuple) for b in s):
                out.append(('a missing value can give a value: %s' % T.show(x, 3)[:120], x))
    return out, ev.unknown


def raises(events, live, name, skipna, scalar=False):
    """errors that are raised because a cell is missing, where some value of the cell gives a result"""
    ev = Eval(name, skipna, scalar)
    out = []
    for e in events:
        if e.kind != 'raise' or e.guard is FALSE:
            continue
        for p, x in paths(e.guard, ev):
            if x is TRUE and any(y is not FALSE for y in under(live, p)):
                out.append(('%s is raised because a value is missing' % e.data['type'], e))
                break
    return out
