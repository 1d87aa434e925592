"""Dependence of a result on the data of other cells.

A result is *local* when every element of it is computed from the elements of the data at the same position (for the
time means: at the same position of every dimension but time).  The analysis walks the value graph of the result and
collects the operations through which the data of another cell can reach it."""
from . import terms as T, ops
from .terms import N, Ite, TRUE, FALSE, leaves

META = {'dims', 'shape', 'ndim', 'coords', 'attrs', 'attr', 'keys', 'len', 'size', 'sizes', 'dtype', 'name', 'chunks', 'hasattr', 'modname', 'isinstance',
        'issubdtype', 'type', 'cfget', 'const', 'nan', 'inf', 'pi', 'ext', 'fn', 'mod', 'dim', 'truthy', 'data_vars', 'isnone', 'autodims', 'fmt', 'item'}
KINDS = ('is_duck_array', 'is_chunked_array', 'is_scalar', 'isscalar', 'infer_freq', 'is_dict_like', 'callable', 'dtype', 'shape', 'ndim', 'size')
ELEM = ops.ELEMWISE | {'isnan', 'notnull', 'isnull', 'isfinite', 'nan_to_num', 'fillna', 'sign0', 'log1p', 'expm1', 'real', 'imag', 'round', 'trunc', 'floor',
                       'ceil', 'isin', 'scatter', 'clip', 'wrap', 'setname', 'setattrs', 'rename', 'drop_vars', 'transpose', 'T', 'expand_dims', 'squeeze', 'ravel',
                       'swapaxes', 'moveaxis', 'list', 'tuple', 'star', 'asarray', 'outer', 'kw', 'kv', 'dict', 'where', 'full_like', 'compute',
                       'broadcast', 'mesh', 'newaxis', 'eq', 'not', 'and', 'or', 'deg2rad', 'rad2deg', 'log10', 'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'arcsin',
                       'arccos', 'arctan', 'abs', 'is', 'hypot', 'cf.guess'}
MOVES = {'roll': 'shifts cells', 'shift': 'shifts cells', 'flip': 'reverses cells', 'cumsum': 'accumulates over cells', 'cumprod': 'accumulates over cells',
         'diff': 'takes differences of neighbouring cells', 'gradient': 'takes differences of neighbouring cells', 'sort': 'sorts cells', 'argsort': 'sorts cells',
         'interp': 'interpolates between cells', 'ffill': 'fills from other cells', 'bfill': 'fills from other cells', 'interpolate_na': 'fills from other cells',
         'rank': 'ranks cells', 'convolve': 'combines neighbouring cells', 'rolling': 'combines neighbouring cells', 'unique': 'collapses cells',
         'nonzero0': 'selects cells by value', 'compress': 'selects cells by value'}
REDUCE = {'sum', 'mean', 'max', 'min', 'std', 'var', 'median', 'prod', 'any', 'all', 'nansum', 'nanmean', 'nanmax', 'nanmin', 'argmax', 'argmin', 'quantile',
          'percentile', 'nanmedian', 'nanstd', 'nzmin', 'nzmax', 'count', 'wmean', 'ptp', 'average'}
GROUPED = {'resample', 'groupby', 'sel', 'isel'}


CORE1D = {'interp1d', 'loginterp1d'}


class Walk:
    def __init__(self, data, over=None, axis=None):
        """data: names of the array inputs; over: predicate telling that a term names the dimension the function reduces over;
        axis: name of the parameter with the number of the axis along which the function works"""
        self.data, self.over, self.axis = data, over, axis
        self.memo, self.gmemo = {}, {}
        self.mixes, self.unknown = {}, {}

    # ---- does a term depend on the data?
    def dep(self, n):
        if isinstance(n, Ite):
            r = self.gmemo.get(id(n))
            if r is None:
                self.gmemo[id(n)] = False
                r = self.gmemo[id(n)] = self.dep(n.atom.n) or self.dep(n.hi) or self.dep(n.lo)
            return r
        if not isinstance(n, N):
            return False
        r = self.memo.get(id(n))
        if r is not None:
            return r
        self.memo[id(n)] = False
        if n.op == 'in':
            r = n.param in self.data
        elif n.op == 'dropna':
            r = self.dep(n.args[0])
        elif n.op in META:
            r = False
        elif n.op == 'pw':
            r = self.dep(n.aux)
        elif n.op == 'call' and str(n.param).rsplit('.', 1)[-1] in KINDS:
            r = False
        else:
            r = any(self.dep(a) for a in n.args)
        self.memo[id(n)] = r
        return r

    # ---- collect the mixing operations on the way from the data to the result
    def value(self, g, live=TRUE):
        st, seen = [(g, live)], set()
        while st:
            g, live = st.pop()
            if live is FALSE or (id(g), id(live)) in seen:
                continue
            seen.add((id(g), id(live)))
            a = T.top((g, live)) if isinstance(g, Ite) else None
            if a is None:
                if isinstance(g, N):
                    for t in g.taint or ():
                        self.unknown.setdefault(t, g)
                    self.term(g)
                else:
                    self.unknown.setdefault('value %s' % type(g).__name__, None)
                continue
            (gh, gl), (lh, ll) = T.cof(g, a), T.cof(live, a)
            if lh is not FALSE and ll is not FALSE and gh.key != gl.key:
                self.atom(a, gh, gl)
            st += [(gh, lh), (gl, ll)]

    def atom(self, a, hi, lo):
        if not self.dep(a.n):
            return
        if a.ew:
            self.term(a.n)
            return
        n = a.n
        if n.op in ('any', 'all') and n.args and self.covered(n, hi, lo):
            self.term(n.args[0])
            return
        self.mixes.setdefault('a condition on the whole array decides every cell (%s)' % T.show(n, 3), n)

    def covered(self, n, hi, lo):
        """any(p) only decides cells where p holds (all(p): where p fails)"""
        p = n.args[0]
        g = T.unpack(p)
        if not isinstance(g, Ite):
            g = T.mkite(T.atom(p, True), TRUE, FALSE) if p.op != 'not' else T.mkite(T.atom(p.args[0], True), FALSE, TRUE)
        if n.op == 'any':
            g = T.gnot(g)
        dead = T.H('dead', ())
        return T.constrain(T.unpack0(hi) if isinstance(hi, N) else hi, g, dead).key == T.constrain(T.unpack0(lo) if isinstance(lo, N) else lo, g, dead).key

    def term(self, n):
        st, seen = [n], self.__dict__.setdefault('_seen', set())
        while st:
            n = st.pop()
            if not isinstance(n, N) or id(n) in seen or not self.dep(n):
                continue
            seen.add(id(n))
            op = n.op
            if op == 'in':
                continue
            if op == 'pw':
                self.value(n.aux)
                continue
            if op == 'setcoord' or op == 'assign_coords':
                st += n.args
                continue
            if op == 'dropna':
                how = next((k.args[0] for k in n.args[1:] if k.op == 'kw' and k.param == 'how'), None)
                if not (how is not None and T.isconst(how) and how.param == 'all'):
                    self.mixes.setdefault('dropna removes a whole period for every cell when one cell has no value in it', n)
                st.append(n.args[0])
                continue
            if op == 'index' and not self.dep(n.args[0]):
                st.append(n.args[1])              # a lookup table
                continue
            if self.over is not None:
                if op in GROUPED or op.startswith(('g:', 'dt')):
                    if any(self.dep(a) for a in n.args[1:]):
                        self.mixes.setdefault('%s selects or groups by the values of the data' % op, n)
                    st.append(n.args[0])
                    continue
                if op in ('gmap', 'grp'):
                    st += n.args
                    continue
                if op == 'call' and n.param in ('xarray.concat', 'xarray.merge', 'xarray.where', 'xarray.zeros_like', 'xarray.ones_like'):
                    st += [a.args[0] if a.op == 'kw' else a for a in n.args]
                    continue
            if self.axis is not None and op in ('fft', 'ifft', 'rfft', 'irfft', 'store'):
                where = self.core(n)
                if where is None:
                    self.unknown.setdefault(op + ' along an axis that could not be followed', n)
                elif not self.along(n, where):
                    self.mixes.setdefault(op + ' along an axis other than %s' % self.axis, n)
                st += n.args if op == 'store' else n.args[:1]
                continue
            if op == 'map' and len(n.args) == 2:
                src = []
                if self.perelement(n.args[1], n.args[0], src):
                    st += src
                    continue
            if op == 'reshape':
                sh = n.args[1]
                first = sh.args[0].args[0] if sh.op == 'tuple' and sh.args and sh.args[0].op == 'star' else sh
                if first.op == 'shape' and first.args and first.args[0].op == 'in' and first.args[0].param in self.data:
                    st.append(n.args[0])
                    continue
            if op in CORE1D and self.over is not None:
                st += n.args
                continue
            if op in ELEM:
                st += n.args
                continue
            if op in REDUCE:
                d = n.args[1:]
                if self.over is not None and d and all(x.op == 'dim' and all(self.over(l) for l in leaves(T.unpack(x.args[0]))) for x in d):
                    st.append(n.args[0])
                elif self.over is not None and d and any(x.op == 'dim' and any(T.isconst(l) for l in leaves(T.unpack(x.args[0]))) for x in d):
                    self.unknown.setdefault('%s over a dimension of its own' % op, n)
                else:
                    self.mixes.setdefault('%s combines the values of all cells' % op, n)
                continue
            if op in MOVES:
                self.mixes.setdefault(op + ' ' + MOVES[op], n)
                continue
            self.unknown.setdefault(op + (':' + str(n.param) if op == 'call' else ''), n)

    def perelement(self, body, dom, src):
        """the data occur in the body of a map only as the current element"""
        st, seen = [body], set()
        while st:
            n = st.pop()
            if id(n) in seen or not self.dep(n):
                continue
            seen.add(id(n))
            if isinstance(n, Ite):
                st += [n.atom.n, n.hi, n.lo]
            elif n.op == 'pw':
                st.append(n.aux)
            elif n.op == 'index' and n.args[1].op == 'idx' and n.args[1].args and n.args[1].args[0].fp == dom.fp:
                src.append(n.args[0])
            elif n.op == 'in':
                return False
            else:
                st += n.args
        return True

    # ---- where the axis the function works along sits in an intermediate array
    def core(self, n):
        """the axis number (a term) in the array n of the axis that is number `axis` in the input; None if it could not be followed"""
        if n.op == 'in' and n.param in self.data:
            return T.H('in', (), self.axis, kind='int')
        if n.op == 'swapaxes':
            c = self.core(n.args[0])
            if c is None:
                return None
            a, b = n.args[1], n.args[2]
            return b if a.fp == c.fp or self.isaxis(a) and self.isaxis(c) else a if b.fp == c.fp or self.isaxis(b) and self.isaxis(c) else None
        if n.op == 'pw':
            r = [self.core(l) for l in leaves(n.aux) if isinstance(l, N) and self.dep(l)]
            return r[0] if r and all(x is not None and x.fp == r[0].fp for x in r) else None
        if n.op in ('fft', 'ifft', 'rfft', 'irfft', 'store') or n.op in ELEM and n.op not in ('transpose', 'T', 'moveaxis', 'expand_dims', 'ravel', 'reshape'):
            r = [self.core(a) for a in n.args if self.dep(a)]
            return r[0] if r and all(x is not None and x.fp == r[0].fp for x in r) else None
        return None

    def isaxis(self, t):
        return t.op == 'in' and t.param == self.axis

    def along(self, n, where):
        if n.op == 'store':                # a[i] = v selects along the first axis
            return T.isnum(where) and where.param == 0
        ax = n.args[1] if len(n.args) > 1 else T.const(-1)
        return ax.fp == where.fp or self.isaxis(ax) and self.isaxis(where)
