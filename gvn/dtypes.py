"""What becomes of whole-number (or single-precision) input.

With `T.DTYPES` on, the interpreter keeps the casts and the float literals it otherwise erases, and reports every write into an array together with
the value the array was made from.  Element types are then propagated over the value graph; a write of a fractional value into an array that has the
whole-number type of the input is a violation, as are a power of whole numbers that cannot be held and a negative power of whole numbers."""
from . import terms as T
from .terms import N, Ite
from .local import META

# I: whole numbers of the input's type; S: single precision; F: double; W / WF: Python numbers (whole / not), which take the other operand's type
FRAC = ('F', 'S', 'WF')
KEEP = {'isel', 'sel', 'T', 'transpose', 'stack', 'unstack', 'flip', 'roll', 'reshape', 'ravel', 'squeeze', 'rename', 'setcoord', 'setname', 'setattrs', 'drop_vars',
        'expand_dims', 'swapaxes', 'moveaxis', 'index', 'store', 'loopstore', 'broadcast', 'star', 'newaxis', 'neg', 'wrap', 'lset', 'abs', 'real', 'sum', 'cumsum', 'diff',
        'min', 'max', 'broadcast_to', 'atleast1', 'item', 'coords', 'comp', 'dim', 'cfget', 'first', 'cf.guess', 'assign_coords', 'repeat', 'copy', 'compute', 'chunk',
        'flatten', 'pad', 'lremove', 'dictget', 'data_vars', 'full_like', 'nzmin', 'nzmax', 'sort', 'unique', 'square', 'inplace', 'sign', 'dropna', 'interp_like', 'shift', 'each'}
MIX = {'add', 'sub', 'mul', 'maximum', 'minimum', 'mod', 'floordiv', 'outer', 'clip', 'list', 'tuple', 'colstack', 'concat', 'concatenate', 'prod', 'dot'}
REAL = {'div', 'exp', 'log', 'log2', 'log10', 'log1p', 'expm1', 'sqrt', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'sinh', 'cosh', 'tanh', 'floor', 'ceil',
        'hypot', 'cbrt', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'mean', 'std', 'var', 'median', 'nanmean', 'nanstd', 'gradient', 'reciprocal', 'wmean', 'average'}
DOUBLE = {'fft', 'ifft', 'rfft', 'irfft', 'double', 'zeros', 'empty', 'interp1d', 'loginterp1d', 'linspace', 'imag', 'sph_harm_y'}


def mix(ts):
    ts = set(ts)
    if '?' in ts:
        return '?'
    strong = ts & {'I', 'S', 'F'}
    if 'F' in strong or {'I', 'S'} <= strong or 'I' in strong and 'WF' in ts:
        return 'F'
    if strong:
        return next(iter(strong))
    return 'WF' if 'WF' in ts else 'W'


def mixes(sets):
    """mix over every combination"""
    out = frozenset(['W'])
    for s in sets:
        out = frozenset(mix((a, b)) for a in out for b in s)
    return out


class Types:
    def __init__(self, kinds):
        self.kinds = kinds            # parameter -> type
        self.memo = {}
        self.gated = set()            # conditions that ask for an element type

    def ty(self, n):
        if isinstance(n, Ite):
            asks = self.asks(n.atom.n)
            c = self.decide(n.atom.n) if asks else None
            if c is not None:
                return self.ty(n.hi if c else n.lo)
            a, b = self.ty(n.hi), self.ty(n.lo)
            if asks and a != b:
                return frozenset('?')
            return a | b
        if not isinstance(n, N):
            return frozenset('?')
        r = self.memo.get(n.fp)
        if r is None:
            self.memo[n.fp] = frozenset('?')
            r = self.memo[n.fp] = frozenset(self._ty(n))
        return r

    def asks(self, n):
        seen, st = set(), [n]
        while st:
            x = st.pop()
            if not isinstance(x, N) or x.fp in seen:
                continue
            seen.add(x.fp)
            if x.op == 'attr' and x.param in ('dtype', 'kind', 'itemsize') or x.op in ('issubdtype', 'dtypename', 'result_type', 'isdtype') \
                    or x.op == 'call' and 'issub' in str(x.param):
                return True
            st += x.args
        return False

    def dtype(self, d):
        """element types a dtype term stands for"""
        if d.op == 'attr' and d.param == 'dtype':
            return self.ty(d.args[0])
        if d.op == 'dtypename' or d.op == 'ext':
            return frozenset([name_type(d.param)])
        if d.op == 'result_type':
            return mixes([self.dtype(a) for a in d.args])
        if d.op == 'const' and isinstance(d.param, str):
            return frozenset([name_type(d.param)])
        return frozenset('?')

    def decide(self, n):
        if n.op == 'not':
            r = self.decide(n.args[0])
            return None if r is None else not r
        if n.op == 'issubdtype' and len(n.args) == 2:
            a, b = self.dtype(n.args[0]), str(getattr(n.args[1], 'param', '')).rsplit('.', 1)[-1]
            sets = {'integer': {'I'}, 'signedinteger': {'I'}, 'floating': {'F', 'S'}, 'inexact': {'F', 'S'}, 'float64': {'F'}, 'int64': {'I'}, 'number': {'I', 'F', 'S'}}
            if b in sets and not a & {'?', 'W', 'WF'}:
                if a <= sets[b]:
                    return True
                if not a & sets[b]:
                    return False
        if n.op in ('eq', 'contains'):
            for x in n.args:
                if x.op == 'attr' and x.param == 'kind':
                    a = self.dtype(x.args[0])
                    o = [y for y in n.args if y is not x]
                    if len(o) == 1 and o[0].op in ('const', 'tuple', 'list') and not a & {'?', 'W', 'WF'}:
                        ls = [o[0].param] if o[0].op == 'const' else [y.param for y in o[0].args]
                        if all(isinstance(y, str) for y in ls):
                            ks = set(''.join(ls))
                            real = {'i' if t == 'I' else 'f' for t in a}
                            if len(real) == 1:
                                return next(iter(real)) in ks
        return None

    def _ty(self, n):
        op = n.op
        if op == 'in':
            return {self.kinds.get(n.param, '?')}
        if op == 'const':
            if isinstance(n.param, bool) or not T.isnum(n):
                return '?'
            return {'W' if n.param.denominator == 1 else 'WF'}
        if op in ('fconst', 'pi', 'nan', 'inf'):
            return {'WF'}
        if op in ('idx', 'len', 'ndim', 'argmax', 'argmin'):
            return 'W'
        if op == 'arange1':
            return 'I'
        if op == 'double' and self.ty(n.args[0]) <= {'W', 'WF'}:
            return {'WF'}
        if op in DOUBLE:
            return 'F'
        if op == 'integer':
            return 'I'
        if op == 'full':
            return {{'W': 'I', 'WF': 'F'}.get(t, t) for t in self.ty(n.args[1])}
        if op == 'mesh':
            return self.ty(n.args[n.param])
        if op == 'map' and len(n.args) == 2:
            return self.ty(n.args[1])
        if op in ('where', 'pw'):
            if op == 'pw':
                return self.ty(n.aux) if n.aux is not None else '?'
            return mixes([self.ty(a) for a in n.args[1:3]])
        if op == 'astype':
            if len(n.args) > 1:
                return self.dtype(n.args[1])
            return {name_type(n.param)}
        if op == 'trunc':
            return {{'F': 'I', 'S': 'I', 'WF': 'W'}.get(t, t) for t in self.ty(n.args[0])}
        if op == 'pow':
            b, e = self.ty(n.args[0]), self.ty(n.args[1])
            return mixes([b, e])
        if op in MIX:
            return mixes([self.ty(a) for a in n.args]) if n.args else '?'
        if op in REAL:
            return {{'I': 'F', 'W': 'WF'}.get(t, t) for t in mixes([self.ty(a) for a in n.args[:1 if op not in ('div', 'arctan2', 'hypot') else 2]])}
        if op in KEEP and n.args:
            return self.ty(n.args[0])
        return '?'


def name_type(d):
    d = str(d).rsplit('.', 1)[-1]
    return {'float': 'F', 'float64': 'F', 'double': 'F', 'longdouble': 'F', 'float32': 'S', 'single': 'S', 'int': 'I', 'int64': 'I', 'int32': 'I', 'intp': 'I', 'int_': 'I',
            'floating': 'F', 'integer': 'I', 'float16': 'WF'}.get(d, '?')


def powers(val, top, seen=None):
    """(term, exponent) of the powers in a value"""
    seen, st = set(), [val]
    while st:
        x = st.pop()
        if isinstance(x, Ite):
            if id(x) not in seen:
                seen.add(id(x))
                st += [x.hi, x.lo, x.atom.n]
            continue
        if not isinstance(x, N) or x.fp in seen:
            continue
        seen.add(x.fp)
        if x.op == 'pow' and T.isnum(x.args[1]) and x.args[1].param.denominator == 1:
            yield x, int(x.args[1].param)
        st += x.args
        if x.op == 'pw' and x.aux is not None:
            st.append(x.aux)


def check(r, kinds):
    """[(text, site)], undecided texts"""
    t = Types(kinds)
    found, unknown = [], []
    for e in r.events:
        if e.kind != 'dtwrite':
            continue
        b, v = t.ty(e.data['base']), t.ty(e.data['value'])
        if 'I' in b and v & set(FRAC):
            if t.asksg(e.guard):
                unknown.append('a write under a condition on the element type')
                continue
            found.append(('a fractional value is written into an array of whole numbers', e.site))
        elif '?' in b and v & set(FRAC) or 'I' in b and '?' in v:
            unknown.append('element types of a write at line %s' % (e.site[1] if e.site else '?'))
    for x, k in powers(r.I.val(r.value), None) if r.value is not None else ():
        b = t.ty(x.args[0])
        if k < 0 and 'I' in b:
            found.append(('a negative power of whole numbers (an error)', r.I.sites.get(x.fp)))
        elif k >= 6 and 'I' in b:
            found.append(('a power of %d of whole numbers does not fit their type' % k, r.I.sites.get(x.fp)))
        elif k >= 16 and 'S' in b:
            found.append(('a power of %d overflows in single precision' % k, r.I.sites.get(x.fp)))
    # casts of the result back to the input's type
    for x in casts(r.I.val(r.value)) if r.value is not None else ():
        src = t.ty(x.args[0])
        to = t.dtype(x.args[1]) if len(x.args) > 1 else frozenset([name_type(x.param)])
        if to == {'I'} and src & set(FRAC):
            found.append(('a fractional value is cast to the whole-number type of the input', r.I.sites.get(x.fp)))
    return found, unknown


def casts(val):
    seen, st = set(), [val]
    while st:
        x = st.pop()
        if isinstance(x, Ite):
            if id(x) not in seen:
                seen.add(id(x))
                st += [x.hi, x.lo]
            continue
        if not isinstance(x, N) or x.fp in seen:
            continue
        seen.add(x.fp)
        if x.op == 'astype' and len(x.args) > 1:
            yield x
        st += x.args


def _asksg(self, g):
    seen, st = set(), [g]
    while st:
        x = st.pop()
        if isinstance(x, Ite) and id(x) not in seen:
            seen.add(id(x))
            if self.asks(x.atom.n):
                return True
            st += [x.hi, x.lo]
    return False


Types.asksg = _asksg
