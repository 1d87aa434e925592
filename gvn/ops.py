"""Canonical constructors for non-arithmetic operations on terms."""
from . import terms as T
from .terms import N, H, NONE, ONE, ZERO, TRUE, FALSE, isnum, const

FULL = H('slice', (NONE, NONE, NONE))
REV = H('slice', (NONE, NONE, const(-1)))


def slice_(lo, hi, step=NONE):
    if isnum(step) and step.param == 1:
        step = NONE
    if isnum(lo) and lo.param == 0 and step is NONE:
        lo = NONE
    return H('slice', (lo, hi, step))


def shape(x):
    return H('shape', (x,), kind='tuple')


def ndim(x):
    if x.op in ('store', 'wrap', 'setname', 'setattrs', 'setcoord', 'assign_coords', 'rename'):
        return ndim(x.args[0])
    if x.op == 'shape':
        return ONE
    return H('ndim', (x,), isint=True, kind='int')


ELEMWISE = {'add', 'sub', 'mul', 'div', 'neg', 'pow', 'pw', 'lt', 'le', 'eq', 'ilt', 'eq0', 'minimum', 'maximum',
            'not', 'arctan2', 'hypot', 'mod', 'floordiv', 'astype'} | T.EXP_FN


def scalarish(n):
    if n.op in ('const', 'nan', 'inf', 'pi', 'len', 'ndim', 'size', 'min', 'max', 'nzmin', 'nzmax', 'idx'):
        return True
    if n.op == 'in':
        return n.kind in ('float', 'int', 'scalar', 'str', 'bool', 'scalar?', None)
    if n.op == 'index':
        i = n.args[1]
        return i.op != 'slice' and (i.isint or isnum(i))
    if n.op in ELEMWISE:
        return all(scalarish(a) for a in n.args)
    if n.op in ('prev', 'other', 'ext'):
        return True
    return False


def length(x):
    if x.op == 'index' and x.args[1].op == 'slice':
        lo, hi, st = x.args[1].args
        if st is NONE:
            lo = ZERO if lo is NONE else lo
            n = length(x.args[0])
            neg = lambda v: isnum(v) and v.param < 0
            hi = n if hi is NONE else (T.add(n, hi) if neg(hi) else hi)
            lo = T.add(n, lo) if neg(lo) else lo
            return T.sub(hi, lo)
        if st.fp == const(-1).fp:
            return length(x.args[0])
    if x.op == 'autodims' or x.op == 'dims' and len(x.args) == 1:
        return ndim(x.args[0])
    if x.op in ('list', 'tuple', 'set'):
        if not any(a.op in ('comp', 'compif', 'cond', 'map', 'star') for a in x.args):
            return const(len(x.args)) if x.op != 'set' else H('len', (x,), isint=True, kind='int')
    if x.op == 'map':
        return x.args[0].args[0]
    if x.op in ('store', 'flip', 'roll', 'full_like', 'neg', 'fft', 'ifft', 'real', 'imag', 'expand0'):
        if x.op == 'full_like' and x.args:
            return length(x.args[0])
        return length(x.args[0])
    if x.op in ('zeros', 'full') and x.args:
        s = x.args[0]
        if s.op in ('tuple', 'list') and s.args:
            return s.args[0]
        return s
    if x.op == 'arange1':
        return x.args[0]
    if x.op == 'shape':
        return ndim(x.args[0])
    if x.op == 'dims':
        return ndim(x.args[0])
    if x.op == 'keys':
        return H('len', (x.args[0],), isint=True, kind='int')
    if x.op in ('add', 'sub', 'mul', 'div'):
        a, b = x.args
        if scalarish(a):
            return length(b)
        if scalarish(b):
            return length(a)
    return H('len', (x,), isint=True, kind='int')


def _full(i):
    return i.fp == FULL.fp or (i.op == 'const' and i.param is Ellipsis)


def norm_idx(i):
    if i.op == 'tuple':
        comps = list(i.args)
        while len(comps) > 1 and _full(comps[-1]):
            comps.pop()
        if len(comps) == 1:
            return comps[0]
        return H('tuple', comps)
    return i


def index(x, i):
    i = norm_idx(i)
    if _full(i):
        return x
    if x.op in ('list', 'tuple') and isnum(i) and i.isint and not any(a.op in ('comp', 'compif', 'cond', 'map', 'star') for a in x.args):
        k = int(i.param)
        if -len(x.args) <= k < len(x.args):
            return x.args[k]
    if i.fp == REV.fp:
        return flip(x)
    if x.op == 'shape' and isnum(i) and i.param == 0:
        return length(x.args[0])
    if x.op == 'nonzero0' and isnum(i):
        if i.param == 0:
            return H('nzmin', x.args, isint=True)
        if i.param == -1:
            return H('nzmax', x.args, isint=True)
    if x.op == 'nonzero' and isnum(i) and i.param == 0:
        return H('nonzero0', x.args)
    if x.op == 'index' and x.args[1].op == 'slice' and i.isint and not (isnum(i) and i.param < 0):
        lo, hi, st = x.args[1].args
        if st is NONE and not (isnum(lo) and lo.param < 0):
            return index(x.args[0], i if lo is NONE else T.add(lo, i))
    if x.op == 'arange1' and i.isint and not (isnum(i) and i.param < 0):
        return i
    if x.op == 'store':
        b, j, v = x.args
        if i.fp == j.fp:
            return v
        if isnum(i) and isnum(j) and i.param >= 0 and j.param >= 0:
            return index(b, i)
    if x.op == 'map' and (i.isint or isnum(i)) and not (isnum(i) and i.param < 0):
        dom, body = x.args
        ix = [s for s in T.subterms(body) if s.op == 'idx' and s.args[0].fp == dom.fp]
        return subst(body, {s.fp: i for s in ix})
    if x.op == 'zeros' and scalarish(index_probe(i)):
        pass
    return H('index', (x, i), kind='str' if x.op in ('dims', 'keys', 'data_vars', 'str:split') or x.kind == 'strs' else None)


def index_probe(i):
    return i


def flip(x):
    if x.op == 'flip':
        return x.args[0]
    return T.linear('flip', x) if x.op in ('add', 'sub', 'mul', 'neg', 'div') else H('flip', (x,))


def iszero(v):
    return v.fp == 0 or v.op == 'zeros'


def store(b, i, v):
    i = norm_idx(i)
    if v.op == 'zeros':
        v = ZERO
    if v.op == 'full' and len(v.args) > 1:
        v = v.args[1]
    if _full(i):
        if v.op == 'const' or v.op == 'nan':
            return H('full_like', (b, v)) if v.fp else H('full_like', (b, ZERO))
        return v
    # x[i] = x[i]
    if v.op == 'index' and v.args[0].fp == b.fp and v.args[1].fp == i.fp:
        return b
    chain = [(i, v)]
    base = b
    while base.op == 'store':
        chain.append((base.args[1], base.args[2]))
        base = base.args[0]
    chain.reverse()
    # later identical index overrides an earlier one
    out = []
    for k, (ii, vv) in enumerate(chain):
        if any(jj.fp == ii.fp for jj, _ in chain[k + 1:]) and not any(_uses(vv2, ii) for _, vv2 in chain[k + 1:]):
            continue
        out.append((ii, vv))
    # commute neighbours that cannot interfere
    changed = True
    while changed:
        changed = False
        for k in range(len(out) - 1):
            (i1, v1), (i2, v2) = out[k], out[k + 1]
            if i1.fp > i2.fp and (v1.fp == v2.fp or disjoint(i1, i2)):
                out[k], out[k + 1] = out[k + 1], out[k]
                changed = True
    cols = _columns(base, out)
    if cols is not None:
        return cols
    for ii, vv in out:
        base = H('store', (base, ii, vv))
    return base


def _uses(v, i):
    return False


def _columns(base, out):
    """zeros((n,k)) with every column stored"""
    if base.op not in ('zeros', 'empty', 'full') or not base.args or base.args[0].op not in ('tuple', 'list') or len(base.args[0].args) != 2:
        return None
    k = base.args[0].args[1]
    if not isnum(k) or len(out) != k.param:
        return None
    cols = {}
    for i, v in out:
        if i.op == 'tuple' and len(i.args) == 2 and _full(i.args[0]) and isnum(i.args[1]):
            cols[int(i.args[1].param) % int(k.param)] = v
    if len(cols) != k.param:
        return None
    return H('colstack', [cols[c] for c in range(int(k.param))])


def disjoint(i, j):
    a = i.args if i.op == 'tuple' else (i,)
    b = j.args if j.op == 'tuple' else (j,)
    for x, y in zip(a, b):
        if isnum(x) and isnum(y) and x.param != y.param and (x.param >= 0) == (y.param >= 0):
            return True
        # integer offsets of the same expression
        if x.isint and y.isint and x.op != 'slice' and y.op != 'slice':
            d = T.sub(x, y)
            if isnum(d) and d.param != 0:
                return True
        for p, q in ((x, y), (y, x)):
            if p.isint and q.op == 'slice' and q.args[2] is NONE:
                lo, hi = q.args[0], q.args[1]
                if hi is not NONE and hi.fp == p.fp:
                    return True
                if lo is not NONE and isnum(T.sub(lo, p)) and T.sub(lo, p).param > 0:
                    return True
    return False


def gsubst(g, m, leaf=None):
    """substitution in a gated value, conditions included"""
    memo = {}

    def rec(x):
        if not isinstance(x, T.Ite):
            return leaf(x) if leaf is not None else (subst(x, m) if isinstance(x, N) else x)
        r = memo.get(id(x))
        if r is None:
            n = subst(x.atom.n, m)
            a = x.atom if n.fp == x.atom.n.fp else T.atom(n, x.atom.ew)
            r = memo[id(x)] = T.ite(T.mkite(a, T.TRUE, T.FALSE), rec(x.hi), rec(x.lo))
        return r
    return rec(g)


def subst(n, m, memo=None):
    """rebuild n with numbers in m replaced"""
    memo = {} if memo is None else memo
    if n.fp in m:
        return m[n.fp]
    if n.fp in memo:
        return memo[n.fp]
    if not n.args:
        r = n
    else:
        a = [subst(x, m, memo) for x in n.args]
        r = n if all(x is y for x, y in zip(a, n.args)) else rebuild(n, a)
    memo[n.fp] = r
    return r


def rebuild(n, a):
    op = n.op
    if op in ('add', 'sub', 'mul', 'div'):
        return getattr(T, op)(*a)
    if op == 'neg':
        return T.neg(a[0])
    if op == 'pow':
        return T.power(*a)
    if op in T.EXP_FN and len(a) == 1:
        return T.fn(op, a[0])
    if op in ('minimum', 'maximum'):
        return T.minmax(op, *a)
    if op in ('lt', 'le', 'eq'):
        return getattr(T, op)(*a)
    if op == 'ilt':
        return T._intlt(*a)
    if op == 'not':
        return T.notn(a[0])
    if op == 'index':
        return index(*a)
    if op == 'store':
        return store(*a)
    if op == 'pw':
        c, x, y = a
        g = T.mkite(T.atom(c, True), TRUE, FALSE) if c not in (TRUE, FALSE) else c
        if c.op == 'not':
            g = T.mkite(T.atom(c.args[0], True), FALSE, TRUE)
        r = T.ite(g, x.aux if x.op == 'pw' else x, y.aux if y.op == 'pw' else y)
        return T.pack(r)
    if op == 'len':
        return length(a[0])
    if op == 'map':
        return comp_map(*a)
    return H(op, a, n.param, isint=n.isint, kind=n.kind, taint=None if not n.taint else n.taint)


def depends(n, pred):
    return any(pred(x) for x in T.subterms(n))


def vectorise(dom, body):
    """[body(i) for i in dom] as an array expression, when body is element-wise in x[i+b]"""
    if dom.op != 'rng':
        return None
    n = dom.args[0]
    isidx = lambda x: x.op == 'idx' and x.args[0].fp == dom.fp
    memo = {}

    class No(Exception):
        pass

    def rec(x):
        if x.fp in memo:
            return memo[x.fp]
        if not depends(x, isidx):
            if not scalarish(x):
                raise No
            r = x
        elif isidx(x):
            r = H('arange1', (n,), isint=True)
        elif x.op == 'index' and not depends(x.args[0], isidx):
            i = x.args[1]
            off = offset(i, isidx)
            if off is None:
                raise No
            a = x.args[0]
            if off.fp == 0 and length(a).fp == n.fp:
                r = a
            else:
                r = index(a, slice_(off, T.add(off, n)))
        elif x.op in ELEMWISE:
            r = rebuild(x, [rec(a) for a in x.args])
        else:
            raise No
        memo[x.fp] = r
        return r
    try:
        return rec(body)
    except No:
        return None


def offset(i, isidx):
    """i == idx + off -> off"""
    ix = [s for s in T.subterms(i) if isidx(s)]
    if len(ix) != 1:
        return None
    off = T.sub(i, ix[0])
    ex = T.expand(off)
    if ex is None:
        return None
    r = ZERO
    for c, m in sorted(ex, key=lambda t: t[1].fp):
        if depends(m, isidx):
            return None
        t = m if c == 1 else T.mul(const(c), m)
        r = t if r is ZERO else T.add(r, t)
    return r


def comp_map(dom, body):
    v = vectorise(dom, body)
    if v is not None:
        return v
    return H('map', (dom, body))


def sumover(dom, b):
    isidx = lambda x: x.op == 'idx' and x.args[0].fp == dom.fp
    if not depends(b, isidx):
        return T.mul(dom.args[0], b)
    v = vectorise(dom, b)
    if v is not None:
        return T.linear('sum', v)
    return T.linear('sumover', b, None, (dom,)) if False else H('sumover', (dom, b))


def loop_store(dom, pv, w, v0):
    """w = store(prev, i, v) executed for every element of dom"""
    from .terms import Ite
    if isinstance(w, Ite):
        return None
    if w.op != 'store' or w.args[0].fp != pv.fp:
        return None
    _, i, v = w.args
    isprev = lambda x: x.op == 'prev'
    isidx = lambda x: x.op == 'idx' and x.args[0].fp == dom.fp
    if depends(v, isprev) or depends(i, isprev):
        return None

    def f(b):
        off = offset(i, isidx) if i.op != 'tuple' else None
        n = dom.args[0]
        if off is not None:
            vv = vectorise(dom, v)
            if vv is not None:
                if off.fp == 0 and length(b).fp == n.fp:
                    return vv
                return store(b, slice_(off, T.add(off, n)), vv)
            return H('loopstore', (b, dom, i, v))
        return H('loopstore', (b, dom, i, v))
    return T.lift(f, [v0], ew=False)


# ---------------------------------------------------------------- xarray coordinates
def coordsrc(n, depth=60):
    """arrays n is element-wise over (labelled sources), as a dict fp->N"""
    if n.op in ('const', 'nan', 'inf', 'pi'):
        return {}
    if n.op == 'in':
        return {n.fp: n} if n.kind in ('da', 'ds', None, 'np') else {}
    if depth == 0:
        return {n.fp: n}
    if n.op in ELEMWISE:
        r = {}
        for a in n.args:
            r.update(coordsrc(a, depth - 1))
        return r
    if n.op == 'shape' or n.op == 'len' or n.op == 'ndim':
        return {}
    if n.op == 'store':
        return coordsrc(n.args[0], depth - 1)
    return {n.fp: n}


def wrap(v, dims, coords):
    """DataArray(v, dims=, coords=): identity when they are those v already has"""
    def f(v, d, c):
        src = coordsrc(v)
        if len(src) >= 1:
            for s in src.values():
                okd = d is NONE or (d.op == 'dims' and d.args[0].fp == s.fp)
                okc = c is NONE or (c.op == 'coords' and c.args[0].fp == s.fp)
                if okd and okc and not (c is NONE) and len(src) == 1:
                    return v
        return H('wrap', (v, d, c))
    return T.lift(f, [v, dims, coords], ew=False)


def item(x, k):
    """labelled item / coordinate k of x"""
    if x.op == 'assign_coords' or x.op == 'setcoord':
        if x.op == 'setcoord':
            if x.args[1].fp == k.fp:
                return x.args[2]
            if T.isconst(x.args[1]) and T.isconst(k):
                return item(x.args[0], k)
    if x.op == 'wrap' and x.args[2].op == 'dict':
        for kv in x.args[2].args:
            if kv.op == 'kv' and kv.args[0].fp == k.fp:
                return kv.args[1]
    if k.op == 'attr' and k.param == 'name' and k.args[0].op == 'cfget' and k.args[0].args[0].fp == x.fp:
        return k.args[0]        # x[x.cf[role].name] is x.cf[role]
    src = coordsrc(x)
    if len(src) == 1:
        s = next(iter(src.values()))
        if s.fp != x.fp:
            return item(s, k)
    return H('item', (x, k))


SAMETYPE = {'isel', 'sel', 'T', 'transpose', 'stack', 'unstack', 'flip', 'roll', 'reshape', 'ravel', 'squeeze', 'rename', 'setcoord', 'setname', 'setattrs', 'drop_vars', 'expand_dims',
            'swapaxes', 'moveaxis', 'index', 'store', 'loopstore', 'broadcast', 'star', 'newaxis', 'neg', 'wrap', 'lset'}


def dtypesrc(x):
    """a term of the same element type"""
    while x.op in SAMETYPE and x.args and x.args[0].op not in ('list', 'tuple'):
        x = x.args[0]
    return x
