"""Abstract interpreter: Python source -> gated value graph.

Joins are gated (value of a variable after an `if` is Ite(cond, then, else));
nothing is enumerated path by path, nothing is solved, nothing is executed.
"""
import ast
import os
from .values import *  # noqa
from . import terms as T


class Unsupported(Exception):
    pass


class Module:
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel, self.tree, self.src = name, path, rel, tree, src
        self.globals = {}
        self.done = False
        self.frame = None


class Frame:
    __slots__ = ('vars', 'mod', 'fname', 'parent', 'rets', 'globals_decl', 'loops', 'nonlocals', 'prov', 'static')

    def __init__(self, mod, fname, parent):
        self.prov, self.static = {}, False
        self.vars, self.mod, self.fname, self.parent = {}, mod, fname, parent
        self.rets, self.globals_decl, self.loops, self.nonlocals = [], set(), [], set()


class Event:
    __slots__ = ('kind', 'guard', 'site', 'data', 'snap')

    def __init__(self, kind, guard, site, data, snap=None):
        self.kind, self.guard, self.site, self.data, self.snap = kind, guard, site, data, snap

    def __repr__(self):
        return 'Event(%s %r @%s)' % (self.kind, self.data, self.site)


EXC_PARENTS = {
    'KeyError': ['LookupError', 'Exception'], 'IndexError': ['LookupError', 'Exception'],
    'ImportError': ['Exception'], 'ModuleNotFoundError': ['ImportError', 'Exception'],
    'NotImplementedError': ['RuntimeError', 'Exception'], 'FileNotFoundError': ['OSError', 'Exception'],
    'ZeroDivisionError': ['ArithmeticError', 'Exception'], 'UnboundLocalError': ['NameError', 'Exception'],
    'Exception': ['BaseException'],
}


def gor_all(gs):
    r = FALSE
    for g in gs:
        r = gor(r, g)
    return r


def exc_matches(t, h):
    """exception type name t caught by handler type h: True/False/None(unknown)"""
    if h in ('BaseException', 'Exception'):
        return True
    if t == h:
        return True
    if t == '?':
        return None
    if t is None:
        return None
    if h in EXC_PARENTS.get(t, []):
        return True
    return False


class Interp:
    MAXDEPTH = 40
    MAXUNROLL = 120

    def __init__(self, program):
        self.prog = program
        self.heap = {}
        self.made = {}              # with T.DTYPES: array -> the value it was made from
        self.memo = {}
        self.invoked = set()
        self.nid = 0
        self.frame = None
        self.live = TRUE
        self.events = []
        self.collectors = []
        self.depth = 0
        self.trydepth = 0
        self.stack = []
        self.loopdepth = 0
        self.synth = {}
        self.outer = []
        self.scope_warn = 0
        self.sites = {}
        self.calls = {}
        self.steps = 0
        self.callsites = set()
        self.curexc = []
        self.watch_global = True
        self.phase = 'module'
        self.failatoms = 0
        self.in_spec = False
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------ heap helpers
    def new(self, cell):
        self.nid += 1
        self.heap[self.nid] = cell
        return Ref(self.nid)

    def cell(self, ref):
        return self.heap.get(ref.id)

    def site(self, node=None):
        f = self.frame
        return (f.mod.rel if f else '?', getattr(node, 'lineno', 0) if node is not None else self.curline, f.fname if f else '?')

    curline = 0

    def ev(self, kind, node=None, guard=None, snap=None, **data):
        e = Event(kind, self.live if guard is None else guard, self.site(node), data, snap)
        self.events.append(e)
        return e

    def arr(self, val, kind, srcs=(), **kw):
        """fresh array cell; carries laziness of its sources"""
        lazy = kw.pop('lazy', None)
        if lazy is None:
            lazy = all(s.lazy for s in srcs if isinstance(s, Arr))
        if isinstance(val, N):
            self.note(val)
        else:
            for l in leaves(val):
                self.note(l)
        c = Arr(val, kind, lazy=lazy, **kw)
        if c.attrsrc is None:
            c.attrsrc = self.attrs_derived('op', [s for s in srcs if isinstance(s, Arr)])
        l = self.new(c)
        if T.DTYPES:
            self.made[l.id] = val
        return l

    def attrs_derived(self, how, cells, extra=()):
        ts = [self.attrs_term(c) for c in cells if c.kind in ('da', 'ds', 'gb', 'gbds', 'any', 'uxda', 'uxds')]
        if how == 'op' and not extra:
            flat = {}
            for t in ts:
                for x in (t.args if t.op == 'attrs' and t.param == 'op' else (t,)):
                    if not (x.op == 'attrs' and x.param == 'none'):
                        flat[x.fp] = x
            ts = [flat[k] for k in sorted(flat)]
            if not ts:
                return T.H('attrs', (), 'none')
        return T.H('attrs', ts + list(extra), how)

    def attrs_term(self, c):
        """the term standing for c's attrs as a whole"""
        if c.attrs is not None:
            t = self.val(c.attrs)
            return T.pack(self.ctl2ew(t)) if isinstance(t, Ite) else t
        if c.attrsrc is not None:
            return c.attrsrc
        return T.H('attrs', (), 'none')

    def ctl2ew(self, g):
        return T.gmap(lambda x: x, g) if not isinstance(g, Ite) else self._relabel(g, True)

    def _relabel(self, g, ew):
        memo = {}

        def rec(x):
            if not isinstance(x, Ite):
                return x
            if id(x) not in memo:
                a = T.atom(x.atom.n, ew)
                memo[id(x)] = ite(T.mkite(a, TRUE, FALSE), rec(x.hi), rec(x.lo))
            return memo[id(x)]
        return rec(g)

    def note(self, n):
        if isinstance(n, N) and n.fp not in self.sites and self.frame is not None and not self.in_spec:
            self.sites[n.fp] = self.site()

    # ------------------------------------------------------------ value projection
    def val(self, g):
        """gated value -> gated term (N leaves)"""
        return T.gmap(self._val1, g)

    def _val1(self, l):
        if isinstance(l, N):
            return l
        if isinstance(l, Ref):
            c = self.cell(l)
            if isinstance(c, Arr):
                return c.val
            if isinstance(c, (SetC,)):
                return self.list_term(c, 'set')
            if isinstance(c, ListC):
                return self.list_term(c)
            if isinstance(c, DictC):
                return self.dict_term(c)
            if isinstance(c, Obj):
                return c.term
            return T.opaque('dangling')
        if isinstance(l, Tup):
            return T.lift(lambda *a: T.H('tuple', a), [self.val(x) for x in l.items], ew=False)
        if isinstance(l, SliceV):
            return T.lift(self._slice, [self.val(l.lo), self.val(l.hi), self.val(l.step)], ew=False)
        if isinstance(l, Ext):
            return T.H('ext', (), l.name)
        if isinstance(l, Fn):
            return T.H('fn', (), (l.mod.name, l.name) + ((l.tag,) if l.tag else ()))
        if isinstance(l, ModV):
            return T.H('mod', (), l.mod.name)
        if isinstance(l, BM):
            return T.lift(lambda r: T.H('boundmethod', (r,), l.name), [self.val(l.recv)], ew=False)
        if isinstance(l, Part):
            return T.opaque('partial')
        if isinstance(l, ExcV):
            return T.H('exc', (), l.type)
        if l is UNDEF:
            return T.H('undef')
        return T.H('special', (), getattr(l, 'name', '?'))

    @staticmethod
    def _slice(lo, hi, step):
        if T.isnum(step) and step.param == 1:
            step = NONE
        if T.isnum(lo) and lo.param == 0 and step is NONE:
            lo = NONE
        return T.H('slice', (lo, hi, step))

    def list_term(self, c, op='list', depth=3):
        if depth and op == 'list':
            # items present under a condition: one list per case
            for s in c.segs:
                g = s[2] if s[0] == 'i' else s[3]
                a = T.top((g,)) if isinstance(g, Ite) else None
                if a is not None and not a.ew:
                    def side(k):
                        out = []
                        for s in c.segs:
                            g = T.restrict(s[2] if s[0] == 'i' else s[3], a.okey, k == 0)
                            if g is FALSE:
                                continue
                            out.append(('i', s[1], g) if s[0] == 'i' else ('c', s[1], s[2], g))
                        return self.list_term(ListC(out), op, depth - 1)
                    return T.ite(T.mkite(a, TRUE, FALSE), side(0), side(1))
        parts = []
        for s in c.segs:
            if s[0] == 'i':
                v = self.val(s[1])
                if s[2] is TRUE:
                    parts.append(v)
                else:
                    parts.append(T.lift(lambda g, x: T.H('cond', (g, x)), [self._packed(s[2]), v], ew=False))
            else:
                parts.append(self.comp_term(s))
        if op == 'list' and len(c.segs) == 1 and c.segs[0][0] == 'c' and c.segs[0][3] is TRUE:
            return parts[0]
        if op == 'set':
            return T.lift(lambda *a: T.H('set', tuple(sorted(a, key=lambda x: x.fp))), parts, ew=False)
        return T.lift(lambda *a: T.H('list', a), parts, ew=False)

    def comp_term(self, s):
        _, dom, segs, guard = s
        if len(segs) == 1 and segs[0][0] == 'i':
            v, g = self.val(segs[0][1]), segs[0][2]
            body = self._packed(v)
            if g is TRUE and guard is TRUE:
                return self.lib.comp_map(dom, body)
            g = gand(guard, g)
            return T.H('compif', (dom, self._packed(g), body))
        inner = self.list_term(ListC(segs))
        inner = self._packed(inner)
        return T.H('comp', (dom, inner))

    def dict_term(self, c):
        parts = []
        for e in c.entries:
            if e[0] == 'each':
                _, dom, k, v, g = e
                k, v, g = [self._packed(self.val(x)) for x in (k, v, g)]
                c1 = self._once(dom, k, v, e[4])
                if c1 is not None:
                    parts.append(T.lift(lambda a, b: T.H('kv', (a, b)), [k, ite(c1, v, T.H('absent'))], ew=False))
                    continue
                g0 = self.val(e[4])
                if isinstance(g0, Ite) and not any(x.op == 'idx' and x.args and x.args[0].fp == dom.fp for a in T.atoms_of(g0).values() for x in T.subterms(a.n)):
                    parts.append(ite(g0, T.H('each', (dom, k, v, TRUE)), T.H('absent')))
                    continue
                parts.append(T.H('each', (dom, k, v, g)))
            else:
                k, v, g = e
                if g is TRUE:
                    parts.append(T.lift(lambda a, b: T.H('kv', (a, b)), [self.val(k), self.val(v)], ew=False))
                else:
                    parts.append(T.lift(lambda a, b: T.H('kv', (a, b)), [self.val(k), ite(g, self.val(v), T.H('absent'))], ew=False))
        base = [c.base] if c.base is not None else []

        def mk(*a):
            a = [x for x in a if x.op != 'absent' and not (x.op == 'kv' and x.args[1].op == 'absent')]
            a = sorted(a, key=lambda x: x.fp)
            if base and not a:
                return base[0]
            return T.H('dict', tuple(base) + tuple(a), len(base))
        return T.lift(mk, parts, ew=False) if parts else mk()

    def _once(self, dom, k, v, g):
        """for key in X: if key == L: d[K] = V   with K, V fixed, is   if L in X: d[K] = V; the condition"""
        g = self.val(g)
        if not isinstance(g, Ite) or g.hi is not TRUE or g.lo is not FALSE or g.atom.n.op != 'eq' or len(g.atom.n.args) != 2:
            return None
        if dom.op != 'rng' or dom.args[0].op != 'len' or dom.args[0].args[0].op != 'keys':
            return None
        keys = dom.args[0].args[0]

        def fixed(t):
            return not any(x.op == 'idx' and x.args and x.args[0].fp == dom.fp for x in T.subterms(t))
        a, b = g.atom.n.args
        for key, lim in ((a, b), (b, a)):
            if key.op == 'index' and key.args[0].fp == keys.fp and key.args[1].op == 'idx' and key.args[1].args[0].fp == dom.fp and all(map(fixed, (lim, k, v))):
                return self.nbool(T.H('contains', (keys.args[0], lim), kind='bool'))
        return None

    def _packed(self, v):
        return T.pack(self._relabel(self.alive(v), True)) if isinstance(v, Ite) else v

    def alive(self, v):
        """v without the cases of failures that have been raised already"""
        lives = [g for g in self.outer + [self.live] if isinstance(g, Ite)]
        if lives and isinstance(v, Ite):
            for a in T.atoms_of(v).values():
                if a.n.op == 'fails' and any(gand(g, T.mkite(a, TRUE, FALSE)) is FALSE for g in lives):
                    v = T.gdrop(v, a)
        return v

    def full(self, l):
        """term of an array together with explicit dims/coords"""
        def f(l):
            if isinstance(l, Ref):
                c = self.cell(l)
                if isinstance(c, Arr):
                    return self.full_cell(c)
            return self._val1(l)
        return T.gmap(f, l)

    def full_cell(self, c):
        if c.dims is None and c.coords is None:
            return c.val
        args = [self._wrapval(c.val)]
        return self.lib.wrap(args[0],
                             self.val(c.dims) if c.dims is not None else NONE,
                             self.val(c.coords) if c.coords is not None else NONE)

    def _wrapval(self, v):
        return v

    # ------------------------------------------------------------ kinds
    def kind(self, l):
        if isinstance(l, Ref):
            c = self.cell(l)
            if isinstance(c, Arr):
                return c.kind
            if isinstance(c, SetC):
                return 'set'
            if isinstance(c, ListC):
                return 'list'
            if isinstance(c, DictC):
                return 'dict'
            return 'obj'
        if isinstance(l, Tup):
            return 'tuple'
        if isinstance(l, N):
            if l.op == 'const':
                if isinstance(l.param, bool):
                    return 'bool'
                if isinstance(l.param, str):
                    return 'str'
                if l.param is None:
                    return 'none'
                if T.isnum(l):
                    return 'int' if l.param.denominator == 1 and l.kind == 'int' else 'float'
                return 'any'
            if l.op == 'other':
                return 'str'
            if l.kind in ('int', 'float', 'str', 'bool', 'tuple', 'scalar'):
                return l.kind
            if l.op in ('strcat', 'fmt'):
                return 'str'
            return 'scalar?'
        if isinstance(l, Fn):
            return 'function'
        return 'any'

    def kinds(self, g):
        return {self.kind(l) for l in leaves(g)}

    # ------------------------------------------------------------ truth
    def truth(self, g, ew=False):
        """gated boolean over atoms"""
        def f(l):
            if isinstance(l, N):
                return self.nbool(l, ew)
            if isinstance(l, Ref):
                c = self.cell(l)
                if isinstance(c, Arr):
                    v = c.val
                    return self.truth(self._relabel(v, ew) if isinstance(v, Ite) else v, ew)
                if isinstance(c, ListC):
                    if any(s[0] == 'i' and s[2] is TRUE for s in c.segs):
                        return TRUE
                    if not c.segs:
                        return FALSE
                    r = FALSE
                    for s in c.segs:
                        if s[0] == 'i':
                            r = gor(r, s[2])
                        else:
                            r = gor(r, self.lib.seg_nonempty(self, s))
                    return r
                if isinstance(c, DictC):
                    if c.base is not None:
                        return self.nbool(T.H('nonempty', (c.base,)), ew)
                    return TRUE if c.entries else FALSE
                return TRUE
            if isinstance(l, Tup):
                return TRUE if l.items else FALSE
            return TRUE
        if isinstance(g, Ite) and not ew:
            g = self._relabel(g, False) if any(a.ew for a in atoms_of(g).values()) else g
        return T.gmap(f, g)

    def nbool(self, n, ew=False):
        if n.op == 'const':
            v = n.param
            return TRUE if v else FALSE
        if n.op == 'nan' or n.op == 'inf':
            return TRUE
        if n.op == 'pw':
            return self.truth(self._relabel(n.aux, ew), ew)
        if n.op == 'not':
            return gnot(self.nbool(n.args[0], ew))
        if n.op == 'and':
            return gand(self.nbool(n.args[0], ew), self.nbool(n.args[1], ew))
        if n.op in ('any', 'all') and not ew and n.param is None and False:
            pass
        a = self.assume(n)
        if a is not None:
            return TRUE if a else FALSE
        if n.kind == 'bool' or n.op in ('lt', 'le', 'eq', 'ilt', 'eq0', 'isnan', 'contains', 'exists', 'any', 'all', 'other?', 'fails', 'hasattr', 'isinstance', 'is', 'isin'):
            return T.mkite(T.atom(n, ew), TRUE, FALSE)
        if n.op in ('ext', 'fn', 'mod'):
            return TRUE
        if n.op == 'other':
            return TRUE
        if n.op == 'in' and n.kind in ('da', 'ds', 'np'):
            return T.mkite(T.atom(T.H('truthy', (n,), kind='bool'), ew), TRUE, FALSE)
        return T.mkite(T.atom(T.H('truthy', (n,), kind='bool'), ew), TRUE, FALSE)

    opaque_fns = frozenset()

    config = {'dask': False, 'pint': False}

    def assume(self, n):
        """facts about the memory representation of the inputs of this configuration"""
        if n.op == 'hasattr' and n.param[0] == '__module__':
            return self.config['dask'] or self.config['pint']
        if n.op == 'eq' and n.args[0].op != 'modname' and n.args[1].op == 'modname':
            m, c = n.args[1], n.args[0]
        elif n.op == 'eq' and n.args[0].op == 'modname':
            m, c = n.args
        else:
            m = None
        if m is not None and T.isconst(c):
            if c.param == 'pint':
                return self.config['pint']
            if isinstance(c.param, str) and c.param.startswith('dask'):
                return self.config['dask']
        if n.op == 'contains' and n.args[0].op == 'attr' and n.args[0].param == 'chunksizes':
            return self.config['dask']
        if n.op == 'is' and any(a.op == 'attr' and a.param == 'chunks' for a in n.args):
            return not self.config['dask'] if any(a is NONE for a in n.args) else None
        if n.op == 'truthy' and n.args[0].op == 'attr' and n.args[0].param in ('chunks', 'chunksizes'):
            return self.config['dask']
        return None

    # ------------------------------------------------------------ branching
    def snapshot(self):
        f = self.frame
        return (dict(f.vars), dict(self.heap), self.live)

    def restore(self, s):
        self.frame.vars = dict(s[0])
        self.heap = dict(s[1])
        self.live = s[2]

    def merge(self, c, S1, S2):
        """state = c ? S1 : S2 (becomes current)"""
        if c is TRUE:
            self.restore(S1)
            return
        if c is FALSE:
            self.restore(S2)
            return
        v1, v2 = S1[0], S2[0]
        out = {}
        for k in v1.keys() | v2.keys():
            a, b = v1.get(k, UNDEF), v2.get(k, UNDEF)
            out[k] = a if a is b else ite(c, a, b)
        h1, h2 = S1[1], S2[1]
        heap = {}
        if h1 is h2:
            heap = h1
        else:
            self.pending = {}
            for k in h1.keys() | h2.keys():
                a, b = h1.get(k), h2.get(k)
                if a is b or b is None:
                    heap[k] = a
                elif a is None:
                    heap[k] = b
                else:
                    heap[k] = self.merge_cell(c, a, b)
            heap.update(self.pending)
        self.frame.vars = out
        self.heap = heap
        self.live = gor(S1[2], S2[2])

    def merge_cell(self, c, a, b):
        if type(a) is not type(b):
            return a
        if isinstance(a, Arr):
            def g(x, y):
                if x is y:
                    return x
                x = NONE if x is None else x
                y = NONE if y is None else y
                return ite(c, x, y)
            at = a.attrs
            if a.attrs is not b.attrs and (a.attrs is None or b.attrs is None or a.attrs.key != b.attrs.key):
                at = self._merge_attrs(c, a, b)
            return a.with_(val=ite(c, a.val, b.val), roots=a.roots | b.roots,
                           dims=g(a.dims, b.dims), coords=g(a.coords, b.coords), attrs=at,
                           name=g(a.name, b.name), lazy=a.lazy and b.lazy,
                           attrsrc=a.attrsrc if a.attrsrc is b.attrsrc else T.H('attrs', tuple(sorted((a.attrsrc, b.attrsrc), key=lambda n: n.fp)), 'phi'))
        if isinstance(a, ListC):
            if len(a.segs) == len(b.segs) and all(x[0] == 'i' and y[0] == 'i' and x[2] is y[2] for x, y in zip(a.segs, b.segs)):
                return type(a)([('i', ite(c, x[1], y[1]), x[2]) for x, y in zip(a.segs, b.segs)], a.roots | b.roots)
            # common prefix, then guarded tails; one-for-one guarded tails are paired
            i = 0
            while i < len(a.segs) and i < len(b.segs) and self._segkey(a.segs[i]) == self._segkey(b.segs[i]):
                i += 1
            ta, tb = a.segs[i:], b.segs[i:]
            segs = list(a.segs[:i])
            if len(ta) == len(tb) == 1 and ta[0][0] == tb[0][0] == 'i' and ta[0][2] is TRUE and tb[0][2] is TRUE:
                segs.append(('i', ite(c, ta[0][1], tb[0][1]), TRUE))
            else:
                for s in ta:
                    segs.append(self._guardseg(s, c))
                nc = gnot(c)
                for s in tb:
                    segs.append(self._guardseg(s, nc))
            return type(a)(segs, a.roots | b.roots)
        if isinstance(a, DictC):
            if a.entries == b.entries and a.base is b.base:
                return a
            if a.base is not b.base:
                if a.base is None or b.base is None or a.base.fp != b.base.fp:
                    return DictC(T.opaque('merged dict'), (), a.roots | b.roots)
            ents = []
            da = {self._entkey(e): e for e in a.entries}
            db = {self._entkey(e): e for e in b.entries}
            order = list(da) + [k for k in db if k not in da]
            for k in order:
                ea, eb = da.get(k), db.get(k)
                if ea is not None and eb is not None:
                    if ea is eb:
                        ents.append(ea)
                    elif ea[0] == 'each':
                        ents.append(ea)
                    else:
                        ents.append((ea[0], ite(c, ea[1], eb[1]), ite(c, ea[2], eb[2])))
                elif ea is not None:
                    ents.append(self._guardent(ea, c))
                else:
                    ents.append(self._guardent(eb, gnot(c)))
            return DictC(a.base, ents, a.roots | b.roots)
        if isinstance(a, Obj):
            f = dict(a.fields)
            for k in set(a.fields) | set(b.fields):
                x, y = a.fields.get(k, UNDEF), b.fields.get(k, UNDEF)
                f[k] = ite(c, x, y)
            t = a.term if a.term is b.term else ite(c, a.term, b.term)
            return Obj(t, f, a.roots | b.roots)
        return a

    def _merge_attrs(self, c, a, b):
        """two different attrs dicts on the same array: keep as a gated ref"""
        ra = a.attrs if a.attrs is not None else self._attrs_cell(a)
        rb = b.attrs if b.attrs is not None else self._attrs_cell(b)
        return ite(c, ra, rb)

    def _attrs_cell(self, a):
        self.nid += 1
        self.pending[self.nid] = DictC(a.attrsrc, (), frozenset(x for x in a.roots))
        self.heap[self.nid] = self.pending[self.nid]
        return Ref(self.nid)

    pending = {}

    def _segkey(self, s):
        if s[0] == 'i':
            return ('i', T._kid(s[1]), T._kid(s[2]))
        return ('c', s[1].fp, tuple(self._segkey(x) for x in s[2]), T._kid(s[3]))

    def _guardseg(self, s, c):
        if s[0] == 'i':
            return ('i', s[1], gand(c, s[2]))
        return ('c', s[1], s[2], gand(c, s[3]))

    def _entkey(self, e):
        if e[0] == 'each':
            return ('each', e[1].fp, T._kid(e[2]), T._kid(e[3]))
        return T._kid(self.val(e[0]))

    def _guardent(self, e, c):
        if e[0] == 'each':
            return ('each', e[1], e[2], e[3], gand(c, e[4]))
        return (e[0], e[1], gand(c, e[2]))

    def simp(self, c):
        """simplify a gated boolean under the live guard"""
        if c is TRUE or c is FALSE:
            return c
        if gand(self.live, c) is FALSE:
            return FALSE
        if gand(self.live, gnot(c)) is FALSE:
            return TRUE
        if self.infeasible(gand(self.live, c)):
            return FALSE
        if self.infeasible(gand(self.live, gnot(c))):
            return TRUE
        return c

    def infeasible(self, g):
        if g is FALSE:
            return True
        if g is TRUE:
            return False
        from .compare import axioms
        return gand(g, axioms(atoms_of(g).values())) is FALSE

    def branch(self, c, f1, f2):
        c = self.simp(c)
        if c is TRUE:
            return f1()
        if c is FALSE:
            return f2()
        S0 = self.snapshot()
        live0 = self.live
        self.live = gand(live0, c)
        r1 = f1()
        S1 = self.snapshot()
        self.restore(S0)
        self.live = gand(live0, gnot(c))
        r2 = f2()
        S2 = self.snapshot()
        self.merge(c, S1, S2)
        if r1 is None and r2 is None:
            return None
        r1 = r1 if r1 is not None else UNDEF
        r2 = r2 if r2 is not None else UNDEF
        return ite(c, r1, r2)

    def over(self, g, f):
        """apply an effectful f to every leaf of g, each under its guard"""
        if not isinstance(g, Ite):
            return f(g)
        if g.atom.ew:
            # element-wise gates only occur inside array values
            return f(T.pack(g))
        c = T.mkite(g.atom, TRUE, FALSE)
        return self.branch(c, lambda: self.over(g.hi, f), lambda: self.over(g.lo, f))

    # ------------------------------------------------------------ module loading
    def load(self, mod):
        if mod.done:
            return
        mod.done = True
        fr = Frame(mod, '<module>', None)
        fr.vars = mod.globals
        mod.frame = fr
        saved = (self.frame, self.live, self.phase, self.trydepth, self.in_spec)
        self.frame, self.live, self.phase, self.trydepth = fr, TRUE, 'module', 0
        self.in_spec = mod.name.startswith('spec')
        try:
            self.block(mod.tree.body)
        finally:
            mod.globals = fr.vars
            self.frame, self.live, self.phase, self.trydepth, self.in_spec = saved
        for k, v in list(mod.globals.items()):
            for l in leaves(v):
                self._mark_global(l, mod.name + '.' + k)

    def _mark_global(self, l, name):
        if isinstance(l, Ref):
            c = self.heap.get(l.id)
            r = frozenset([('global', name)])
            if isinstance(c, Arr):
                self.heap[l.id] = c.with_(roots=c.roots | r)
            elif isinstance(c, (ListC, SetC)):
                self.heap[l.id] = type(c)(c.segs, c.roots | r)
                for s in c.segs:
                    if s[0] == 'i':
                        for x in leaves(s[1]):
                            self._mark_global(x, name)
            elif isinstance(c, DictC):
                self.heap[l.id] = DictC(c.base, c.entries, c.roots | r)
                for e in c.entries:
                    if e[0] != 'each':
                        for x in leaves(e[1]):
                            self._mark_global(x, name)
            elif isinstance(c, Obj):
                self.heap[l.id] = Obj(c.term, c.fields, c.roots | r)
        elif isinstance(l, Tup):
            for x in l.items:
                for y in leaves(x):
                    self._mark_global(y, name)
        elif isinstance(l, Fn):
            for d in list(l.defaults) + list(l.kwdefaults.values()):
                for y in leaves(d):
                    if isinstance(y, Ref):
                        self._mark_global(y, 'default of ' + l.name)
            f = l.scope
            while f is not None and not f.static and f.fname != '<module>':
                f.static = True
                for k, v in list(f.vars.items()):
                    for y in leaves(v):
                        if isinstance(y, Ref):
                            self._mark_global(y, 'variable %s kept by %s' % (k, l.name))
                f = f.parent

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if self.live is FALSE:
                return
            self.curline = getattr(s, 'lineno', self.curline)
            self.steps += 1
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                self.unsupported(s)
            else:
                m(s)

    def unsupported(self, node):
        what = 'stmt ' + type(node).__name__
        self.ev('unknown', node, what=type(node).__name__)
        sub = list(ast.walk(node))
        # everything written below becomes opaque: objects first, then names
        seen = set()
        for n in sub:
            base = []
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                base = [n.value]
            elif isinstance(n, ast.AugAssign):
                base = [n.target]
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                c = n.value
                base = ([c.func.value] if isinstance(c.func, ast.Attribute) else []) + [x.value if isinstance(x, ast.Starred) else x for x in c.args]
            for e in base:
                while isinstance(e, (ast.Subscript, ast.Attribute)):
                    e = e.value
                if isinstance(e, ast.Name) and e.id in self.frame.vars:
                    self._taint(self.frame.vars[e.id], what, node, seen)
        for n in sub:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.frame.vars[n.id] = T.opaque(what, (), (n.id, node.lineno))
        maybe = T.mkite(T.atom(T.H('opaque', (), (what, node.lineno), kind='bool', taint=frozenset([what])), False), TRUE, FALSE)
        for n in sub:
            if isinstance(n, (ast.Return, ast.Yield)):
                self.frame.rets.append((gand(self.live, maybe), T.opaque(what), self.snapshot(), node))
            elif isinstance(n, (ast.Raise, ast.Assert)):
                self.do_raise('?', gand(self.live, maybe), n, None, implicit=isinstance(n, ast.Assert))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'warn':
                self.ev('warn', n, message=T.opaque(what), category=None, guard=gand(self.live, maybe))

    def _taint(self, v, what, node, seen):
        for l in leaves(v):
            if not isinstance(l, Ref) or l.id in seen:
                continue
            seen.add(l.id)
            c = self.heap.get(l.id)
            op = T.opaque(what, (), (l.id, node.lineno))
            if isinstance(c, Arr):
                self.heap[l.id] = c.with_(val=op)
            elif isinstance(c, ListC):
                g = T.mkite(T.atom(T.H('opaque', (), (what, node.lineno), kind='bool', taint=frozenset([what])), False), TRUE, FALSE)
                self.heap[l.id] = type(c)([('i', op, g)], c.roots)
            elif isinstance(c, DictC):
                self.heap[l.id] = DictC(op, (), c.roots)

    def s_Expr(self, s):
        self.ex(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            v = self.prog.resolve_import(self, a.name)
            if a.asname:
                self.assign_name(a.asname, v)
            else:
                topn = a.name.split('.')[0]
                self.assign_name(topn, self.prog.resolve_import(self, topn))
            self.import_event(s, a.name)

    def import_event(self, s, name):
        self.ev('import', s, name=name)
        if self.trydepth:
            self.implicit_fail(T.H('import', (), name), 'ImportError', s)

    def s_ImportFrom(self, s):
        if s.module == '__future__':
            return
        if s.level:
            pkg = self.frame.mod.name.split('.')
            isp = self.frame.mod.path.endswith('__init__.py')
            drop = s.level - (1 if isp else 0)
            base = pkg[:len(pkg) - drop] if drop else pkg
            name = '.'.join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        self.import_event(s, name)
        for a in s.names:
            if a.name == '*':
                for k, v in self.prog.star(self, name):
                    self.assign_name(k, v)
                continue
            self.assign_name(a.asname or a.name, self.prog.resolve_from(self, name, a.name))

    def s_FunctionDef(self, s):
        f = self.make_fn(s)
        g = f
        for d in reversed(s.decorator_list):
            dv = self.ex(d)
            g = self.lib.decorate(self, dv, g, d)
        self.assign_name(s.name, g)

    def s_AsyncFunctionDef(self, s):
        self.assign_name(s.name, T.opaque('async def'))

    def s_ClassDef(self, s):
        for d in s.decorator_list + s.bases:
            self.ex(d)
        self.assign_name(s.name, T.opaque('class ' + s.name))

    def make_fn(self, node):
        a = node.args
        defaults = [self.ex(d) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ex(d)
        scope = self.frame if self.frame is not None and self.frame.fname != '<module>' else None
        return Fn(node, self.frame.mod, scope, getattr(node, 'name', '<lambda>'), defaults, kwd)

    def s_Return(self, s):
        v = self.ex(s.value) if s.value is not None else NONE
        if self.live is FALSE:
            return
        self.frame.rets.append((self.live, v, self.snapshot(), s))
        self.live = FALSE

    def s_Assign(self, s):
        v = self.ex(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ex(s.value), s)

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, t)
        elif isinstance(t, ast.Attribute):
            cur = self.ex(ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t))
        else:
            cur = self.ex(ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t))
        rhs = self.ex(s.value)
        # in place on arrays and lists
        if isinstance(t, ast.Name) or isinstance(t, ast.Attribute):
            def one(l):
                if isinstance(l, Ref):
                    c = self.cell(l)
                    if isinstance(c, ListC) and op == 'Add':
                        self.lib.list_extend(self, l, rhs, s)
                        return l
                    if isinstance(c, DictC) and op == 'BitOr':
                        self.lib.dict_update(self, l, rhs, s)
                        return l
                    if isinstance(c, SetC):
                        self.lib.set_update(self, l, rhs, s)
                        return l
                    if isinstance(c, Arr) and c.kind in ('np', 'da', 'any', 'duck'):
                        r = self.binop(op, l, rhs, s)
                        nv = self.val(r)
                        if T.DTYPES and c.kind in ('np', 'da'):
                            self.dtwrite(l, nv, s)
                        self.mutate_arr(l, nv, s, 'augmented assignment')
                        return l
                return self.binop(op, l, rhs, s)
            v = self.over(cur, one)
            if isinstance(t, ast.Name):
                self.assign_name(t.id, v, s)
            else:
                self.assign(t, v, s)
            return
        v = self.binop(op, cur, rhs, s)
        self.assign(t, v, s)

    def s_If(self, s):
        c = self.truth(self.ex(s.test))
        if self.live is FALSE:
            return
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def s_Assert(self, s):
        c = self.simp(self.truth(self.ex(s.test)))
        nc = gnot(c)
        self.do_raise('AssertionError', gand(self.live, nc), s, None)
        self.live = gand(self.live, c)

    def s_Raise(self, s):
        if s.exc is None:
            t = self.curexc[-1] if self.curexc else '?'
            self.do_raise(t, self.live, s, None)
            self.live = FALSE
            return
        v = self.ex(s.exc)

        def one(l):
            if isinstance(l, ExcV):
                self.do_raise(l.type, self.live, s, l.args)
            elif isinstance(l, Ext):
                self.do_raise(l.name.split('.')[-1], self.live, s, ())
            else:
                self.do_raise('?', self.live, s, None)
            self.live = FALSE
        self.over(v, one)
        self.live = FALSE

    def do_raise(self, typ, guard, node, args, implicit=False):
        if guard is FALSE:
            return
        fv = {}
        for f in self.stack + [self.frame]:
            fv[id(f)] = dict(f.vars)
        e = Event('raise', guard, self.site(node), {'type': typ, 'args': args, 'implicit': implicit}, (fv, dict(self.heap)))
        if self.collectors:
            self.collectors[-1].append(e)
        else:
            self.events.append(e)

    def implicit_fail(self, term, typ, node):
        """an external operation inside a try may fail"""
        if isinstance(term, N) and term.op == 'item' and len(term.args) == 2 and term.args[1].op == 'index' and \
                term.args[1].args[0].op in ('data_vars', 'coords', 'keys', 'dims') and term.args[1].args[0].args[:1] == term.args[:1]:
            return  # a name listed by the object itself
        a = T.mkite(T.atom(T.H('fails', (term,), typ, kind='bool'), False), TRUE, FALSE)
        g = gand(self.live, a)
        if g is FALSE:
            return
        self.do_raise(typ, g, node, None, implicit=True)
        self.live = gand(self.live, gnot(a))

    def s_Try(self, s):
        coll = []
        self.collectors.append(coll)
        self.trydepth += 1
        S0 = self.snapshot()
        live0 = self.live
        self.block(s.body)
        self.trydepth -= 1
        self.collectors.pop()
        Sn = self.snapshot()
        # handlers
        pend = list(coll)
        results = []
        for h in s.handlers:
            names = self.handler_types(h)
            if names is None:
                # not an exception class: the lookup itself raises TypeError
                mine = pend
                pend = []
                for e in mine:
                    self.do_raise_ev(Event('raise', e.guard, self.site(h), {'type': 'TypeError', 'args': None, 'implicit': True, 'badhandler': True}, e.snap))
                self.ev('badhandler', h, guard=live0)
                continue
            mine, rest = [], []
            for e in pend:
                m = [exc_matches(e.data['type'], n) for n in names]
                if any(x is True for x in m):
                    mine.append(e)
                elif any(x is None for x in m):
                    mine.append(e)      # unknown failure: reaches this handler or escapes
                    a = T.mkite(T.atom(T.H('exctype', (T.H('site', (), e.site),), tuple(names), kind='bool'), False), TRUE, FALSE)
                    rest.append(Event(e.kind, gand(e.guard, gnot(a)), e.site, e.data, e.snap))
                    mine[-1] = Event(e.kind, gand(e.guard, a), e.site, e.data, e.snap)
                else:
                    rest.append(e)
            pend = rest
            g = FALSE
            for e in mine:
                g = gor(g, e.guard)
            if g is FALSE:
                self.dead_handler(h, names)
                continue
            # state at the raises
            self.restore_event(mine[0], S0)
            for e in mine[1:]:
                cur = self.snapshot()
                self.restore_event(e, S0)
                nxt = self.snapshot()
                self.merge(e.guard, nxt, cur)
            self.live = g
            if h.name:
                types = {e.data['type'] for e in mine}
                self.frame.vars[h.name] = ExcV(types.pop() if len(types) == 1 else '?', (mine[0].data['args'] or ()) if len(mine) == 1 else ())
            self.curexc.append(mine[0].data['type'] if len({e.data['type'] for e in mine}) == 1 else '?')
            self.ev('handler', h, guard=g, types=tuple(names), caught=tuple(sorted({str(e.data['type']) for e in mine})))
            nrets = len(self.frame.rets)
            self.block(h.body)
            self.curexc.pop()
            if self.live is not FALSE or len(self.frame.rets) > nrets:
                self.ev('swallow', h, guard=gor(self.live, gor_all([x[0] for x in self.frame.rets[nrets:]])), types=tuple(names), body=_handler_desc(h))
            results.append((g, self.snapshot()))
        for e in pend:
            self.do_raise_ev(e)
        # else
        self.restore(Sn)
        if self.live is not FALSE and s.orelse:
            self.block(s.orelse)
            Sn = self.snapshot()
        for g, Sh in results:
            self.merge(g, Sh, self.snapshot())
        if not results:
            self.restore(Sn)
        if s.finalbody:
            self.block(s.finalbody)

    s_TryStar = s_Try

    def dead_handler(self, h, names):
        self.ev('deadhandler', h, types=tuple(names))

    def do_raise_ev(self, e):
        if e.guard is FALSE:
            return
        if self.collectors:
            self.collectors[-1].append(e)
        else:
            self.events.append(e)

    def restore_event(self, e, S0):
        fv, heap = e.snap
        self.frame.vars = dict(fv.get(id(self.frame), S0[0]))
        self.heap = dict(heap)

    def handler_types(self, h):
        if h.type is None:
            return ['BaseException']
        v = self.ex(h.type)
        if isinstance(v, Ext):
            return [v.name.split('.')[-1]]
        if isinstance(v, Tup):
            r = []
            for x in v.items:
                if isinstance(x, Ext):
                    r.append(x.name.split('.')[-1])
                else:
                    return None
            return r
        if isinstance(v, N) and v.op == 'opaque':
            return ['Exception']
        return None

    def s_With(self, s):
        n = 0
        for it in s.items:
            k0 = len(self.events)
            v = self.ex(it.context_expr)
            if isinstance(v, Special) and v.name == 'setting':
                # a scoped setting restored on exit
                self.events[k0:] = [e for e in self.events[k0:] if e.kind != 'global']
            nm = v.name if isinstance(v, Special) else ''
            if nm == 'catch_warnings':
                self.scope_warn += 1
                n += 1
            elif nm == 'suppress':
                self.ev('suppress', s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
        self.block(s.body)
        self.scope_warn -= n

    def s_Global(self, s):
        self.frame.globals_decl |= set(s.names)

    def s_Nonlocal(self, s):
        self.frame.nonlocals |= set(s.names)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frame.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ex(t.value)
                k = self.ex(t.slice)
                self.lib.delitem(self, o, k, s)
                if not any(isinstance(l, Ref) for l in leaves(o)):
                    self.writes(t.value, s, 'item deletion')
            elif isinstance(t, ast.Attribute):
                o = self.ex(t.value)
                for l in leaves(o):
                    self.mutate_event(l, s, 'del attribute')
                if not any(isinstance(l, Ref) for l in leaves(o)):
                    self.writes(t.value, s, 'attribute deletion')

    def s_While(self, s):
        if self.counting(s):
            return
        # bounded: unroll while the test is decided
        for _ in range(self.MAXUNROLL):
            c = self.simp(self.truth(self.ex(s.test)))
            if c is FALSE:
                self.block(s.orelse)
                return
            if c is not TRUE or any(isinstance(x, (ast.Break, ast.Continue)) for b in s.body for x in ast.walk(b)):
                break
            self.block(s.body)
            if self.live is FALSE:
                return
        self.unsupported(s)

    def counting(self, s):
        """while i < n: ...; i += 1   is   for i in range(i, n): ..."""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1) or not s.body:
            return False
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq}
        a, op, b = t.left, type(t.ops[0]), t.comparators[0]
        if op not in flip:
            return False
        last = s.body[-1]
        i = step = None
        if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and isinstance(last.value, ast.Constant):
            i, step = last.target.id, {ast.Add: 1, ast.Sub: -1}.get(type(last.op))
            val = last.value.value
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and isinstance(last.value, ast.BinOp):
            i, step = last.targets[0].id, {ast.Add: 1, ast.Sub: -1}.get(type(last.value.op))
            l, r = last.value.left, last.value.right
            if isinstance(l, ast.Constant) and step == 1:
                l, r = r, l
            if not (isinstance(l, ast.Name) and l.id == i and isinstance(r, ast.Constant)):
                return False
            val = r.value
        if step is None or type(val) is not int or val != 1:
            return False
        if isinstance(b, ast.Name) and b.id == i:
            a, b, op = b, a, flip[op]
        if not (isinstance(a, ast.Name) and a.id == i) or i not in self.frame.vars:
            return False
        if (step == 1) != (op in (ast.Lt, ast.LtE)) and op is not ast.NotEq:
            return False
        body = s.body[:-1]
        written, bound = set(), {n.id for n in ast.walk(b) if isinstance(n, ast.Name)}
        if any(isinstance(n, (ast.Await, ast.NamedExpr, ast.Yield)) for n in ast.walk(b)):
            return False
        for x in body:
            for n in ast.walk(x):
                if isinstance(n, ast.Continue):
                    return False
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    written.add(n.id)
                if isinstance(n, (ast.Subscript, ast.Attribute)) and not isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                    written.add(n.value.id)
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                    f = n.value.func
                    written |= {y.id for y in ([f.value] if isinstance(f, ast.Attribute) else []) + n.value.args if isinstance(y, ast.Name)}
        if i in written or bound & written:
            return False
        lo, hi = self.frame.vars[i], self.ex(b)
        if op in (ast.LtE, ast.GtE):
            hi = self.binop('Add' if step == 1 else 'Sub', hi, T.ONE, s)
        if not all(isinstance(x, N) and x.op != 'opaque' for x in (lo, hi)):
            return False
        it = self.lib.call_ext(self, 'builtins.range', [lo, hi, T.const(step)], {}, s)
        key = ('while', id(s))
        f = self.synth.get(key)
        if f is None:
            f = self.synth[key] = ast.copy_location(ast.For(target=ast.copy_location(ast.Name(id=i, ctx=ast.Store()), s), iter=s.test, body=body or [ast.copy_location(ast.Pass(), s)],
                                                            orelse=s.orelse), s)
        brk = any(isinstance(n, ast.Break) for x in body for n in ast.walk(x))
        self.over(it, lambda l: self.for_leaf(l, f))
        self.frame.vars[i] = T.opaque('counter after break') if brk else ite(self.truth(self.compare('Lt' if step == 1 else 'Gt', lo, hi, s)), hi, lo)
        return True

    def s_Match(self, s):
        subj = self.ex(s.subject)

        def cases(i):
            if i >= len(s.cases):
                return
            c = s.cases[i]
            m = self.pattern(c.pattern, subj)
            if m is None:
                self.unsupported(s)
                return
            cond, binds = m
            if c.guard is not None:
                for k, v in binds:
                    self.assign_name(k, v)
                cond = gand(cond, self.truth(self.ex(c.guard)))

            def body():
                for k, v in binds:
                    self.assign_name(k, v)
                self.block(c.body)
            self.branch(cond, body, lambda: cases(i + 1))
        cases(0)

    def pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('Eq', v, self.ex(p.value), p)), []
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare('Is', v, T.const(p.value), p)), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ([(p.name, v)] if p.name else [])
            r = self.pattern(p.pattern, v)
            return None if r is None else (r[0], r[1] + ([(p.name, v)] if p.name else []))
        if isinstance(p, ast.MatchOr):
            c = FALSE
            for q in p.patterns:
                r = self.pattern(q, v)
                if r is None or r[1]:
                    return None
                c = gor(c, r[0])
            return c, []
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.lib.isinstance_(self, v, self.ex(p.cls))), []
        return None

    # ------------------------------------------------------------ loops
    def s_Break(self, s):
        self.frame.loops[-1]['break'].append((self.live, self.snapshot()))
        self.live = FALSE

    def s_Continue(self, s):
        self.frame.loops[-1]['cont'].append((self.live, self.snapshot()))
        self.live = FALSE

    def s_For(self, s):
        it = self.lib.iter_split(self, self.ex(s.iter))
        self.lib.iter_check(self, it, s, s)
        self.over(it, lambda l: self.for_leaf(l, s))

    def for_leaf(self, l, s):
        items = self.lib.enumerate_known(self, l, self.MAXUNROLL if isinstance(l, N) else 400)
        if items is not None:
            self.for_known(items, s)
        elif not s.orelse and not _jumps(s.body) and self.fusible(l):
            def one(x):
                self.assign(s.target, x, s)
                self.block(s.body)
            self.fuse(self.cell(l).segs, one, s)
        else:
            self.for_symbolic(l, s)

    # ---- a loop over a list that was itself filled by loops: the loops are fused
    def fusible(self, l):
        c = self.cell(l) if isinstance(l, Ref) else None
        if type(c) is not ListC or not any(s[0] == 'c' for s in c.segs):
            return False
        if len(c.segs) == 1 and c.segs[0][3] is TRUE and len(c.segs[0][2]) == 1 and c.segs[0][2][0][0] == 'i' and c.segs[0][2][0][2] is TRUE:
            return False
        want = {}

        def doms(segs, d):
            for s in segs:
                if s[0] == 'c':
                    want.setdefault(s[1].fp, set()).add(d)
                    doms(s[2], d + 1)
        doms(c.segs, self.loopdepth)

        def ok(segs):
            for s in segs:
                gs = [s[1], s[2]] if s[0] == 'i' else [s[1], s[3]]
                for g in gs:
                    if isinstance(g, N) and g.op == 'star':
                        return False
                    for l in leaves(g):
                        if isinstance(l, Ref) and not isinstance(self.cell(l), Arr) or isinstance(l, Tup):
                            return False
                    for t in T.subterms(self.val(g)):
                        if t.op == 'idx' and t.args and t.args[0].fp in want and t.param not in want[t.args[0].fp]:
                            return False
                if s[0] == 'c' and not ok(s[2]):
                    return False
            return True
        return ok(c.segs)

    def fuse(self, segs, one, node):
        for s in segs:
            if s[0] == 'i':
                if s[2] is TRUE:
                    one(s[1])
                else:
                    self.branch(s[2], lambda: one(s[1]), lambda: None)
            else:
                def body(_, s=s):
                    if s[3] is TRUE:
                        self.fuse(s[2], one, node)
                    else:
                        self.branch(s[3], lambda: self.fuse(s[2], one, node), lambda: None)
                self.summarise(s[1], NONE, None, body, node)

    def for_known(self, items, s):
        ctx = {'break': [], 'cont': []}
        self.frame.loops.append(ctx)
        for it in items:
            guard = TRUE
            if isinstance(it, tuple):
                it, guard = it
            if self.live is FALSE:
                break
            ctx['cont'] = []

            def body():
                self.assign(s.target, it, s)
                self.block(s.body)
                for g, st in reversed(ctx['cont']):
                    self.merge(g, st, self.snapshot())
                ctx['cont'] = []
            if guard is TRUE:
                body()
            else:
                self.branch(guard, body, lambda: None)
        self.frame.loops.pop()
        if s.orelse and self.live is not FALSE:
            self.block(s.orelse)
        for g, st in reversed(ctx['break']):
            self.merge(g, st, self.snapshot())

    def for_symbolic(self, l, s):
        dom, elem = self.lib.domain(self, l)
        if dom is None:
            self.unsupported(s)
            return
        self.summarise(dom, elem, s.target, s.body, s)
        if s.orelse and self.live is not FALSE:
            self.block(s.orelse)

    def summarise(self, dom, elem, target, body, node, setup=None):
        """one symbolic iteration; see DESIGN.md (loop summaries)"""
        fr = self.frame
        S0 = self.snapshot()
        live0 = self.live
        nr0, ne0 = len(fr.rets), len(self.events)
        self.outer.append(live0)
        self.loopdepth += 1

        def run(havoc_vars, havoc_cells):
            self.restore(S0)
            self.live = TRUE
            for k in havoc_vars:
                fr.vars[k] = self.prevsym(('var', k), S0[0][k])
            for i in havoc_cells:
                c = self.heap[i]
                if isinstance(c, Arr):
                    self.heap[i] = c.with_(val=T.H('prev', (), ('cell', i)))
                elif isinstance(c, ListC):
                    self.heap[i] = type(c)([('i', PREV, TRUE)], c.roots)
                elif isinstance(c, DictC):
                    self.heap[i] = DictC(T.H('prev', (), ('cell', i)), (), c.roots)
            ctx = {'break': [], 'cont': []}
            fr.loops.append(ctx)
            coll = []
            self.collectors.append(coll)
            e = elem() if callable(elem) else elem
            if target is not None:
                self.assign(target, e, node)
            if callable(body):
                body(e)
            else:
                self.block(body)
            for g, st in reversed(ctx['cont']):
                self.merge(g, st, self.snapshot())
            self.collectors.pop()
            fr.loops.pop()
            return ctx, coll

        run((), ())
        tnames = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)} if target is not None else set()
        mv = [k for k, v in S0[0].items() if k not in tnames and k in fr.vars and fr.vars[k].key != v.key]
        mc = [i for i, c in S0[1].items() if self.heap.get(i) is not c and not _same_cell(self, c, self.heap.get(i))]
        del fr.rets[nr0:]
        del self.events[ne0:]
        ctx, coll = run(mv, mc)
        self.loopdepth -= 1
        self.outer.pop()
        S1 = self.snapshot()
        rets = fr.rets[nr0:]
        del fr.rets[nr0:]
        evs = self.events[ne0:]
        del self.events[ne0:]
        self.restore(S0)
        # ---- quantify events
        def q(g):
            return self.lib.exists(self, dom, g)
        for e in evs:
            self.events.append(Event(e.kind, gand(live0, q(e.guard)), e.site, e.data, e.snap))
        esc = FALSE
        for e in coll:
            g = gand(live0, q(e.guard))
            esc = gor(esc, g)
            self.do_raise_ev(Event('raise', g, e.site, dict(e.data, loop=True), (e.snap[0], dict(S0[1]))))
        brk = bool(ctx['break'])
        # ---- modified state
        newheap = dict(S1[1])
        for i in mc:
            newheap[i] = self.summ_cell(dom, S0[1][i], S1[1].get(i), i, brk)
        newvars = dict(S0[0])
        for k, v in S1[0].items():
            if k in mv:
                newvars[k] = self.summ_var(dom, S0[0][k], v, ('var', k), brk)
            elif k not in S0[0]:
                newvars[k] = self.lastval(dom, v)
        self.heap = newheap
        fr.vars = newvars
        self.live = gand(live0, gnot(esc))
        # ---- returns inside the loop
        if rets:
            found = FALSE
            isprev = lambda x: x.op == 'prev'
            if len(rets) == 1 and ((not mv and not mc) or not (brk or self._dep(rets[0][0], isprev) or self._retdep(rets[0], isprev))):
                g, v, st, nd = rets[0]
                ex = q(g)
                h = self.heap
                self.heap = dict(st[1])
                rv = self.firstval(dom, g, v)
                self.heap = {**h, **{i: c for i, c in self.heap.items() if i not in h}}
                rg = gand(self.live, ex)
                lv = self.live
                self.live = rg
                fr.rets.append((rg, rv, self.snapshot(), nd))
                self.live = gand(lv, gnot(ex))
            else:
                for g, v, st, nd in rets:
                    found = gor(found, q(g))
                t = T.opaque('multiple returns in loop', (dom,))
                rg = gand(self.live, found)
                lv = self.live
                self.live = rg
                fr.rets.append((rg, t, self.snapshot(), node))
                self.live = gand(lv, gnot(found))

    def prevsym(self, tag, v):
        ks = self.kinds(v)
        k = ks.pop() if len(ks) == 1 else None
        if k in ('np', 'da', 'ds'):
            return self.new(Arr(T.H('prev', (), tag), k, attrsrc=T.H('attrs', (), 'prev')))
        isint = all(isinstance(l, N) and l.isint for l in leaves(v))
        return T.H('prev', (), tag, isint=isint, kind=k if k in ('int', 'float', 'str', 'bool') else None)

    def _retdep(self, ret, pred):
        g, v, st, nd = ret
        h = self.heap
        self.heap = dict(st[1])
        try:
            return self._dep(self.val(v), pred)
        finally:
            self.heap = h

    def _dep(self, g, pred):
        return any(pred(x) for x in T.subterms(g))

    def summ_var(self, dom, v0, v1, tag, brk):
        w = self.val(v1)
        pv = T.H('prev', (), tag)
        if brk:
            return T.opaque('break', (dom,), tag)
        if not self._dep(w, lambda x: x.op == 'prev'):
            return self.lastval(dom, v1)
        r = self.recurrence(dom, pv, w, self.val(v0))
        ks = self.kinds(v0)
        if ks and ks <= {'np', 'da', 'ds'}:
            return self.arr(r, ks.pop())
        k1 = self.kinds(v1)
        if len(k1) == 1 and k1 <= {'np', 'da', 'ds'}:
            return self.arr(r, k1.pop())
        return r

    def hoist(self, dom, w, f):
        """apply f below the gates that do not vary over the loop"""
        var = lambda x: x.op == 'prev' or x.op == 'idx' and x.args and x.args[0].fp == dom.fp

        def rec(x):
            if isinstance(x, Ite) and not self._dep(x.atom.n, var):
                return ite(T.mkite(x.atom, TRUE, FALSE), rec(x.hi), rec(x.lo))
            return f(x)
        return rec(w)

    def recurrence(self, dom, pv, w, v0):
        return self.hoist(dom, w, lambda x: self._recurrence(dom, pv, x, v0))

    def _recurrence(self, dom, pv, w, v0):
        ls = leaves(w)
        # additive
        inc = []
        ok = True
        for l in ls:
            d = _minus(l, pv)
            if d is None or self._dep(d, lambda x: x.op == 'prev'):
                ok = False
                break
            inc.append(d)
        ats = atoms_of(w)
        if any(self._dep(a.n, lambda x: x.op == 'prev') for a in ats.values()):
            ok = False
        if ok:
            body = T.gmap(lambda l: _minus(l, pv), w)
            b = self._packed(body)
            return T.lift(lambda a: T.add(a, self.lib.sumover(dom, b)), [v0])
        # boolean flags: ite(c, CONST, prev)
        if all(l.fp == pv.fp or T.isconst(l) for l in ls) and not any(self._dep(a.n, lambda x: x.op == 'prev') for a in ats.values()):
            cs = {l.fp: l for l in ls if l.fp != pv.fp}
            if len(cs) == 1:
                k = list(cs.values())[0]
                c = T.gmap(lambda l: FALSE if l.fp == pv.fp else TRUE, w)
                return ite(self.lib.exists(self, dom, c), k, v0)
        if len(ls) == 1 and ls[0].op == 'mul' and pv.fp in (ls[0].args[0].fp, ls[0].args[1].fp):
            o = ls[0].args[1] if ls[0].args[0].fp == pv.fp else ls[0].args[0]
            if not self._dep(o, lambda x: x.op == 'prev'):
                return T.lift(lambda a: T.mul(a, T.H('prodover', (dom, o))), [v0])
        b = self._packed(w)
        i = self._packed(v0)
        from . import ops
        b = ops.subst(b, {pv.fp: T.H('prev', (), ('self', self.loopdepth))})
        if self._dep(b, lambda x: x.op == 'prev' and x.param[0] != 'self' and x.param[-1] != 'outer'):
            return T.opaque('mutual recurrence', (dom,))
        return T.H('fold', (dom, b, i))

    def lastval(self, dom, v):
        idx = self._dep(self.val(v), lambda x: x.op == 'idx' and x.args and x.args[0].fp == dom.fp) if not isinstance(v, Special) else False
        if not idx:
            return v
        return T.H('last', (dom, self._packed(self.val(v))))

    def firstval(self, dom, g, v):
        def conv(x):
            w = self._packed(self.val(x))
            if not self._dep(w, lambda y: y.op == 'idx' and y.args and y.args[0].fp == dom.fp):
                return x
            r = T.H('first', (dom, self._packed(g), w), kind=w.kind)
            ks = self.kinds(x)
            if len(ks) == 1 and ks <= {'np', 'da', 'ds'}:
                return self.arr(r, list(ks)[0])
            return r
        if isinstance(v, Tup):
            return Tup([conv(x) for x in v.items])
        return conv(v)

    def summ_cell(self, dom, c0, c1, i, brk):
        if c1 is None:
            return c0
        if isinstance(c0, Arr):
            w = c1.val
            if brk:
                return c1.with_(val=T.opaque('break', (dom,)))
            pv = T.H('prev', (), ('cell', i))
            def one(x):
                r = self.lib.loop_store(self, dom, pv, x, c0.val)
                return self._recurrence(dom, pv, x, c0.val) if r is None else r
            r = self.hoist(dom, w, one)
            return c1.with_(val=r, roots=c0.roots | c1.roots)
        if isinstance(c0, ListC):
            segs = c1.segs
            if segs and segs[0][0] == 'i' and segs[0][1] is PREV and not any(s[0] == 'i' and s[1] is PREV for s in segs[1:]):
                new = segs[1:]
                if brk:
                    return type(c0)([('i', T.opaque('break', (dom,)), TRUE)], c0.roots)
                return type(c0)(tuple(c0.segs) + (('c', dom, tuple(new), TRUE),), c0.roots | c1.roots)
            return type(c0)([('i', T.opaque('list loop', (dom,)), TRUE)], c0.roots | c1.roots)
        if isinstance(c0, DictC):
            if c1.base is not None and c1.base.op == 'prev' and not brk:
                ents = list(c0.entries)
                for e in c1.entries:
                    if e[0] == 'each':
                        ents.append(('each', T.H('nest', (dom, e[1])), e[2], e[3], e[4]))
                    else:
                        ents.append(('each', dom, e[0], e[1], e[2]))
                return DictC(c0.base, ents, c0.roots | c1.roots)
            return DictC(T.opaque('dict loop', (dom,)), (), c0.roots | c1.roots)
        return c1

    # ------------------------------------------------------------ assignment
    def assign_name(self, name, v, node=None):
        f = self.frame
        if name in f.globals_decl:
            self.ev('global', node, name=f.mod.name + '.' + name, how='assignment to a global name')
            f.mod.globals[name] = v
            return
        if name in f.nonlocals:
            p = f.parent
            while p is not None:
                if name in p.vars:
                    if p.static and self.phase != 'module':
                        self.ev('global', node, name=p.fname + '.' + name, how='assignment to a variable kept by a closure')
                    p.vars[name] = ite(self.live, v, p.vars[name]) if self.live is not TRUE else v
                    return
                p = p.parent
        f.vars[name] = v

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, node)
            src = getattr(node, 'value', None) if isinstance(node, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) else None
            pv = self.prov(src) if src is not None and not isinstance(src, ast.Tuple) else None
            if pv:
                self.frame.prov[t.id] = pv
            else:
                self.frame.prov.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self.lib.unpack(self, v, len(t.elts), [isinstance(e, ast.Starred) for e in t.elts])
            for e, p in zip(t.elts, parts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, p, node)
        elif isinstance(t, ast.Attribute):
            o = self.ex(t.value)
            self.over(o, lambda l: self.lib.setattr_(self, l, t.attr, v, node))
            if any(isinstance(l, (N, Obj)) for l in leaves(o)):
                self.writes(t.value, node, 'attribute assignment .' + t.attr)
        elif isinstance(t, ast.Subscript):
            # X.coords[k] = v is an assignment on X
            if isinstance(t.value, ast.Attribute) and t.value.attr == 'coords':
                o = self.ex(t.value.value)
                k = self.ex(t.slice)
                self.over(o, lambda l: self.lib.setcoord(self, l, k, v, node))
                return
            # X.loc[...] = / X.values[...] = write through a view of X
            o = self.ex(t.value)
            k = self.ex(t.slice)
            self.over(o, lambda l: self.lib.setitem(self, l, k, v, node))
            if not any(isinstance(l, Ref) for l in leaves(o)):
                self.writes(t.value, node, 'item assignment')
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)
        else:
            self.unsupported(node)

    # mutation ---------------------------------------------------------------
    def mutate_event(self, l, node, what):
        if isinstance(l, Ref):
            c = self.cell(l)
            roots = getattr(c, 'roots', None)
            if roots:
                self.ev('mutate', node, roots=roots, what=what)

    def dtwrite(self, l, v, node):
        """values written into an existing array, with what the array was made from"""
        self.ev('dtwrite', node, base=self.made.setdefault(l.id, self.cell(l).val), value=v)

    def mutate_arr(self, l, newval, node, what):
        c = self.cell(l)
        self.mutate_event(l, node, what)
        self.heap[l.id] = c.with_(val=newval)
        for n in leaves(newval):
            self.note(n)
        # write through to the object this is a view of
        v = c.view
        if v is not None:
            base, path = v
            bc = self.heap.get(base.id)
            if isinstance(bc, Arr) and not c.roots:
                if path is None:
                    self.heap[base.id] = bc.with_(val=newval)
                    if bc.view is not None:
                        self.mutate_arr(base, newval, node, what)
                else:
                    nv = T.lift(lambda b, n, p: self.lib.store(b, p, n), [bc.val, newval, path], ew=False)
                    self.mutate_arr(base, nv, node, what)

    # ------------------------------------------------------------ expressions
    def ex(self, e):
        self.steps += 1
        if hasattr(e, 'lineno'):
            self.curline = e.lineno
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.ev('unknown', e, what=type(e).__name__)
            return T.opaque('expr ' + type(e).__name__, (), e.lineno)
        v = m(e)
        if isinstance(e, (ast.Attribute, ast.Subscript, ast.Name, ast.Call)):
            self.memo[e] = v
        return v

    def prov(self, e):
        """roots of the object an expression denotes a part of: the array, or the module-level object, at the bottom of a chain of attributes,
        items and view-returning calls"""
        out = frozenset()
        v = self.memo.get(e)
        refs = False
        if v is not None:
            for l in leaves(v):
                if isinstance(l, Ref):
                    refs = True
                    out |= getattr(self.heap.get(l.id), 'roots', None) or frozenset()
                elif isinstance(l, Ext) and not isinstance(e, ast.Call):
                    refs = True
                    out |= frozenset([('global', l.name)])
        if refs:
            return out
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            return self.prov(e.value)
        if isinstance(e, ast.Name):
            f = self.frame
            while f is not None:
                if e.id in f.vars and e.id not in f.globals_decl:
                    return f.prov.get(e.id, out)
                f = f.parent
            if self.phase != 'module' and e.id in self.frame.mod.globals and isinstance(v, (N, Obj)):
                return frozenset([('global', self.frame.mod.name + '.' + e.id)])
            return out
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id in ('getattr', 'vars', 'iter', 'next', 'memoryview') and e.args:
                return self.prov(e.args[0])
            if isinstance(f, ast.Attribute) and f.attr in ('view', 'get', 'setdefault', '__getitem__', '__getattribute__', 'get_index', 'values', 'items', '__iter__'):
                return self.prov(f.value)
        return out

    def writes(self, e, node, what):
        """a write through an expression whose value is only known as a term"""
        r = self.prov(e)
        if r:
            self.ev('mutate', node, roots=r, what=what)
        return bool(r)

    def e_Constant(self, e):
        if T.DTYPES and isinstance(e.value, float):
            return T.H('fconst', (), repr(e.value), kind='float')
        return T.const(e.value)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def lookup(self, name, node=None):
        f = self.frame
        while f is not None:
            if name in f.vars and not (name in f.globals_decl):
                v = f.vars[name]
                return self.defined(v, name, node)
            f = f.parent
        m = self.frame.mod
        if name in m.globals:
            return m.globals[name]
        return self.lib.builtin(name)

    def defined(self, v, name, node):
        """a possibly-unbound local: UnboundLocalError on those paths"""
        if not isinstance(v, Ite):
            if v is UNDEF:
                self.do_raise('UnboundLocalError', self.live, node, None, implicit=True)
                return T.opaque('unbound ' + name)
            return v
        if not any(l is UNDEF for l in leaves(v)):
            return v
        g = T.gmap(lambda l: TRUE if l is UNDEF else FALSE, v)
        bad = gand(self.live, g)
        if bad is not FALSE and not self.infeasible(bad):
            self.do_raise('UnboundLocalError', bad, node, None, implicit=True)
            self.live = gand(self.live, gnot(g))
        # choose any defined value on the undefined paths
        d = next(l for l in leaves(v) if l is not UNDEF)
        return T.gmap(lambda l: d if l is UNDEF else l, v)

    def e_Attribute(self, e):
        o = self.ex(e.value)
        self.curline = e.lineno
        return self.rooted(self.over(o, lambda l: self.lib.getattr_(self, l, e.attr, e)), o, e.value)

    def e_Subscript(self, e):
        o = self.ex(e.value)
        k = self.ex(e.slice)
        self.curline = e.lineno
        return self.rooted(self.over(o, lambda l: self.lib.getitem(self, l, k, e)), o, e.value)

    def rooted(self, v, o, base):
        """an array found in a part of an object (x.coords[k], x.cf[k]) shares the memory of the object"""
        if isinstance(o, N) and o.op in ('coords', 'data_vars', 'cf', 'attr', 'cf.coordinates'):
            for l in leaves(v):
                c = self.cell(l) if isinstance(l, Ref) else None
                if isinstance(c, Arr) and c.kind in ('da', 'np', 'any') and not c.roots and c.view is None:
                    r = self.prov(base)
                    if r:
                        self.heap[l.id] = c.with_(roots=r)
        return v

    def e_Slice(self, e):
        return SliceV(self.ex(e.lower) if e.lower else NONE, self.ex(e.upper) if e.upper else NONE,
                      self.ex(e.step) if e.step else NONE)

    def e_Tuple(self, e):
        return Tup(self._elts(e.elts))

    def _elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ex(x.value)
                items = self.lib.enumerate_known(self, v, 1000) if not isinstance(v, Ite) else None
                if items is None or any(isinstance(i, tuple) for i in items):
                    out.append(T.lift(lambda a: T.H('star', (a,)), [self.val(v)], ew=False))
                else:
                    out += items
            else:
                out.append(self.ex(x))
        return out

    def e_List(self, e):
        return self.new(ListC([('i', v, TRUE) for v in self._elts(e.elts)]))

    def e_Set(self, e):
        return self.lib.make_set(self, self._elts(e.elts))

    def e_Dict(self, e):
        r = self.new(DictC(None, ()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.dict_update(self, r, self.ex(v), e)
            else:
                kk = self.ex(k)
                vv = self.ex(v)
                self.lib.dict_set(self, r, kk, vv, e)
        return r

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(T.const(v.value))
            else:
                x = self.ex(v.value)
                spec = None
                if v.format_spec is not None:
                    spec = self.ex(v.format_spec)
                if v.conversion not in (-1, 115) or spec is not None:
                    sp = self.val(spec) if spec is not None else NONE
                    parts.append(T.lift(lambda a, b: T.H('fmt', (a, b), v.conversion, kind='str'), [self.val(x), sp], ew=False))
                else:
                    parts.append(self.lib.strof(self, x))
        return self.lib.strcat(parts)

    def e_FormattedValue(self, e):
        return self.lib.strof(self, self.ex(e.value))

    def e_Lambda(self, e):
        return self.make_fn(e)

    def e_IfExp(self, e):
        c = self.truth(self.ex(e.test))
        return self.branch(c, lambda: self.ex(e.body), lambda: self.ex(e.orelse))

    def e_NamedExpr(self, e):
        v = self.ex(e.value)
        self.assign(e.target, v, e)
        return v

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ex(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            # the value of a boolean expression: keep booleans canonical
            vb = v
            if all(isinstance(l, N) and (l.kind == 'bool' or l in (TRUE, FALSE)) for l in leaves(v)):
                vb = c
            if isand:
                return self.branch(c, lambda: go(i + 1), lambda: vb)
            return self.branch(c, lambda: vb, lambda: go(i + 1))
        return go(0)

    def e_UnaryOp(self, e):
        v = self.ex(e.operand)
        op = type(e.op).__name__
        if op == 'Not':
            return gnot(self.truth(v))
        return self.lib.unary(self, op, v, e)

    def e_BinOp(self, e):
        a = self.ex(e.left)
        b = self.ex(e.right)
        self.curline = e.lineno
        return self.binop(type(e.op).__name__, a, b, e)

    def binop(self, op, a, b, node):
        return self.lib.binary(self, op, a, b, node)

    def e_Compare(self, e):
        left = self.ex(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ex(r)
            c = self.compare(type(op).__name__, left, right, e)
            if res is None:
                res = c
            else:
                res = gand(self.truth(res), self.truth(c))
            left = right
        return res

    def compare(self, op, a, b, node):
        return self.lib.compare(self, op, a, b, node)

    def e_Call(self, e):
        f = self.ex(e.func)
        args, kwargs = [], {}
        star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ex(a.value)
                items = self.lib.enumerate_known(self, v, 200) if not isinstance(v, Ite) else None
                if items is None or any(isinstance(i, tuple) for i in items):
                    args.append(T.lift(lambda x: T.H('star', (x,)), [self.val(v)], ew=False))
                    star = True
                else:
                    args += items
            else:
                args.append(self.ex(a))
        for k in e.keywords:
            v = self.ex(k.value)
            if k.arg is None:
                ents = self.lib.dict_known(self, v)
                if ents is None:
                    kwargs['**'] = v
                else:
                    for kk, vv in ents:
                        kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        self.curline = e.lineno
        if self.live is FALSE:
            return T.opaque('dead')
        return self.call(f, args, kwargs, e)

    def call(self, f, args, kwargs, node):
        return self.over(f, lambda l: self.call_leaf(l, args, kwargs, node))

    def call_leaf(self, f, args, kwargs, node):
        self.callsites.add((self.frame.mod.rel, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)))
        if isinstance(f, Fn):
            self.ev('call', node, fn=f, args=args, kwargs=kwargs)
            return self.call_fn(f, args, kwargs, node)
        if isinstance(f, Part):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.fn, list(f.args) + list(args), kw, node)
        if isinstance(f, BM):
            self.ev('mcall', node, recv=f.recv, name=f.name, args=args, kwargs=kwargs)
            r = self.lib.call_method(self, f.recv, f.name, args, kwargs, node)
            self.callbacks([f.recv], args, kwargs, node)
            return r
        if isinstance(f, Ext):
            self.ev('xcall', node, name=f.name, args=args, kwargs=kwargs)
            r = self.lib.call_ext(self, f.name, args, kwargs, node)
            if not f.name.startswith(('inspect.', 'functools.', 'typing.')) and (not f.name.startswith('builtins.') or f.name[9:] in (
                    'sorted', 'min', 'max', 'map', 'filter', 'iter')):
                self.callbacks([], args, kwargs, node)
            return r
        if isinstance(f, Special):
            return T.opaque('call special')
        if isinstance(f, N):
            return self.lib.call_term(self, f, args, kwargs, node)
        if isinstance(f, Ref):
            return self.lib.opaque_call(self, self.val(f), args, kwargs, node)
        return T.opaque('call')

    def callbacks(self, recv, args, kwargs, node):
        """functions handed to a callee that the model of the callee did not call: their effects, on arguments that may be parts of the other arguments"""
        vs = list(args) + list(kwargs.values())
        fs = [l.fn if isinstance(l, Part) else l for v in vs for l in leaves(v) if isinstance(l, (Fn, Part))]
        fs = [f for f in fs if isinstance(f, Fn) and f.key not in self.invoked and isinstance(f.node, (ast.FunctionDef, ast.Lambda))]
        if not fs or self.live is FALSE or len(self.stack) > 12 or self.phase == 'module':
            return
        roots = frozenset()
        for v in recv + vs:
            for l in leaves(v):
                if isinstance(l, Ref):
                    roots |= getattr(self.heap.get(l.id), 'roots', None) or frozenset()
        for f in fs:
            st, ph = self.snapshot(), self.trydepth
            self.collectors.append([])
            a = f.node.args
            n = len(a.posonlyargs + a.args) - len(f.defaults)
            try:
                self.call_fn(f, [self.new(Arr(T.opaque('callback argument %d' % i, (), getattr(node, 'lineno', 0)), 'any', roots=roots)) for i in range(n)],
                             {x.arg: T.opaque('callback argument ' + x.arg) for x in a.kwonlyargs if x.arg not in f.kwdefaults}, node)
            finally:
                self.collectors.pop()
                self.restore(st)
                self.trydepth = ph

    def bind(self, f, args, kwargs, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        if '**' in kwargs:
            kwargs.pop('**')
            out['**unknown'] = TRUE
        for n in names:
            if args:
                out[n] = args.pop(0)
            elif n in kwargs:
                out[n] = kwargs.pop(n)
        if args:
            if a.vararg:
                out[a.vararg.arg] = Tup(args)
            else:
                return None
        elif a.vararg:
            out[a.vararg.arg] = Tup([])
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd)
                if j >= 0:
                    out[n] = f.defaults[j]
                else:
                    return None
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                out[k.arg] = kwargs.pop(k.arg)
            elif k.arg in f.kwdefaults:
                out[k.arg] = f.kwdefaults[k.arg]
            else:
                return None
        if a.kwarg:
            r = self.new(DictC(None, [(T.const(k), v, TRUE) for k, v in kwargs.items()]))
            out[a.kwarg.arg] = r
        elif kwargs:
            return None
        return out

    def call_fn(self, f, args, kwargs, node):
        if self.depth >= self.MAXDEPTH or sum(1 for s in self.stack if s.fname == f.name and s.mod is f.mod) > 3:
            self.ev('unknown', node, what='recursion ' + f.name)
            return T.opaque('recursion ' + f.name)
        self.invoked.add(f.key)
        if f.tag == 'cached':
            self.ev('global', node, name=f.name, how='result cache')
        b = self.bind(f, args, kwargs, node)
        if b is None or '**unknown' in b:
            if b is None:
                self.do_raise('TypeError', self.live, node, None, implicit=True)
                self.ev('badcall', node, fn=f.name)
                self.live = FALSE
            return T.opaque('bad call of ' + f.name)
        if (f.mod.name + '.' + f.name) in self.opaque_fns:
            return T.H('ucall', tuple(T.H('kw', (self._packed(self.val(v)),), k) for k, v in sorted(b.items())), f.name, kind='strornone')
        if isinstance(f.node, (ast.FunctionDef,)) and _is_generator(f.node):
            return self.lib.generator_call(self, f, b, node)
        fr = Frame(f.mod, f.name, f.scope)
        fr.vars = b
        if isinstance(node, ast.Call) and not isinstance(f.node, ast.Lambda) and len(node.args) <= len(f.node.args.posonlyargs + f.node.args.args):
            for x, a in list(zip([x.arg for x in f.node.args.posonlyargs + f.node.args.args], node.args)) + [(k.arg, k.value) for k in node.keywords if k.arg]:
                if isinstance(a, (ast.Attribute, ast.Subscript, ast.Name)) and x in b and not any(isinstance(l, Ref) for l in leaves(b[x])):
                    pv = self.prov(a)
                    if pv:
                        fr.prov[x] = pv
        self.stack.append(self.frame)
        self.frame = fr
        self.depth += 1
        spec = self.in_spec
        self.in_spec = f.mod.name.startswith('spec')
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ex(f.node.body)
            self.block(f.node.body)
            if self.live is not FALSE:
                fr.rets.append((self.live, NONE, self.snapshot(), None))
            rets = fr.rets
            if not rets:
                self.live = FALSE
                return T.opaque('noreturn')
            # join of the exits
            g, v, st, _ = rets[-1]
            self.restore(st)
            self.live = g
            for g2, v2, st2, _ in reversed(rets[:-1]):
                cur = self.snapshot()
                lv = gor(g2, self.live)
                self.merge(g2, st2, cur)
                self.live = lv
                v = ite(g2, v2, v)
            return v
        finally:
            self.frame = self.stack.pop()
            self.depth -= 1
            self.in_spec = spec

    # comprehensions ---------------------------------------------------------
    def e_ListComp(self, e):
        return self.comp(e, 'list')

    def e_GeneratorExp(self, e):
        r = self.comp(e, 'list')
        return r

    def e_SetComp(self, e):
        return self.lib.to_set(self, self.comp(e, 'list'))

    def e_DictComp(self, e):
        r = self.new(DictC(None, ()))
        tgt = ast.Name('\0d', ast.Load())
        fr = self.frame
        saved = dict(fr.vars)
        fr.vars['\0d'] = r

        def emit():
            k = self.ex(e.key)
            v = self.ex(e.value)
            self.over(self.frame.vars['\0d'], lambda l: self.lib.dict_set(self, l, k, v, e))
        self.comp_loops(e.generators, 0, emit, e)
        self.frame.vars = {k: v for k, v in self.frame.vars.items() if k in saved and k != '\0d'}
        for k, v in saved.items():
            self.frame.vars[k] = v if k in _comp_targets(e) else self.frame.vars.get(k, v)
        return r

    def comp(self, e, kind):
        r = self.new(ListC(()))
        fr = self.frame
        saved = dict(fr.vars)
        nm = '\0l%d' % len(self.stack) + str(id(e))
        fr.vars[nm] = r

        def emit():
            v = self.ex(e.elt)
            self.lib.list_append(self, r, v, e)
        self.comp_loops(e.generators, 0, emit, e)
        tg = _comp_targets(e)
        out = {}
        for k, v in saved.items():
            out[k] = v if k in tg else self.frame.vars.get(k, v)
        self.frame.vars = out
        return r

    def comp_loops(self, gens, i, emit, node):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        it = self.lib.iter_split(self, self.ex(g.iter))
        self.lib.iter_check(self, it, node, node)

        def body(_=None):
            def conds(j):
                if j == len(g.ifs):
                    self.comp_loops(gens, i + 1, emit, node)
                    return None
                c = self.truth(self.ex(g.ifs[j]))
                return self.branch(c, lambda: conds(j + 1), lambda: None)
            conds(0)

        def leaf(l):
            items = self.lib.enumerate_known(self, l, self.MAXUNROLL if isinstance(l, N) else 400)
            if items is not None:
                for x in items:
                    guard = TRUE
                    if isinstance(x, tuple):
                        x, guard = x

                    def one():
                        self.assign(g.target, x, node)
                        body()
                    if guard is TRUE:
                        one()
                    else:
                        self.branch(guard, one, lambda: None)
            elif self.fusible(l):
                def one(x):
                    self.assign(g.target, x, node)
                    body()
                self.fuse(self.cell(l).segs, one, node)
            else:
                dom, elem = self.lib.domain(self, l)
                if dom is None:
                    self.ev('unknown', node, what='comprehension domain')
                    self.assign(g.target, T.opaque('comp elem'), node)
                    body()
                    return
                self.summarise(dom, elem, g.target, body, node)
        self.over(it, leaf)

    def e_Starred(self, e):
        return self.ex(e.value)

    def e_Yield(self, e):
        v = self.ex(e.value) if e.value is not None else NONE
        y = self.frame.vars.get('\0y')
        if isinstance(y, Ref):
            self.lib.list_append(self, y, v, e)
        return NONE

    def e_YieldFrom(self, e):
        v = self.ex(e.value)
        y = self.frame.vars.get('\0y')
        if isinstance(y, Ref):
            self.lib.list_extend(self, y, v, e)
        return NONE

    def e_Await(self, e):
        return T.opaque('await')


def _jumps(body):
    """break, continue or yield somewhere in a loop body"""
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Break, ast.Yield, ast.YieldFrom, ast.Continue)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def _comp_targets(e):
    s = set()
    for g in e.generators:
        for n in ast.walk(g.target):
            if isinstance(n, ast.Name):
                s.add(n.id)
    return s


def _is_generator(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def _minus(l, pv):
    if not isinstance(l, N):
        return None
    if l.fp == pv.fp:
        return ZERO
    if l.op == 'add':
        for i in (0, 1):
            d = _minus(l.args[i], pv)
            if d is not None:
                return T.add(d, l.args[1 - i])
    if l.op == 'sub':
        d = _minus(l.args[0], pv)
        if d is not None:
            return T.sub(d, l.args[1])
    return None


def _same_cell(I, a, b):
    if b is None:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Arr):
        return a.val.key == b.val.key and T._kid(a.attrs if a.attrs is not None else NONE) == T._kid(b.attrs if b.attrs is not None else NONE)
    if isinstance(a, ListC):
        return len(a.segs) == len(b.segs) and all(I._segkey(x) == I._segkey(y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, DictC):
        return len(a.entries) == len(b.entries) and a.base is b.base and all(
            x is y or (x[0] != 'each' and y[0] != 'each' and x[1].key == y[1].key and x[2].key == y[2].key) for x, y in zip(a.entries, b.entries))
    return a is b


def _handler_desc(h):
    return [type(x).__name__ for x in h.body]
