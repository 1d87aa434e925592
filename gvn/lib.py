"""Models of Python objects and builtins for the abstract interpreter."""
import ast
import re
from .values import *  # noqa
from . import terms as T
from . import ops
from .terms import H, const

CONCRETE = True


class IterV(Leaf):
    """lazy iterator object: enumerate / zip / items / ..."""
    __slots__ = ('kind', 'parts')

    def __init__(self, kind, parts):
        self.kind, self.parts = kind, tuple(parts)
        self.key = ('it', kind) + tuple(T._kid(p) for p in self.parts)


BUILTINS = set('''len range enumerate zip isinstance issubclass type hasattr getattr setattr delattr set frozenset list tuple dict
sorted min max sum abs any all next iter map filter str repr int float bool print round reversed callable id hash slice
Exception ValueError TypeError KeyError AttributeError IndexError ImportError ModuleNotFoundError NotImplementedError RuntimeError
Warning DeprecationWarning PendingDeprecationWarning UserWarning FutureWarning LookupError ArithmeticError ZeroDivisionError
AssertionError BaseException OSError StopIteration object complex bytes divmod pow vars globals locals open input exec eval super
property staticmethod classmethod NameError UnboundLocalError RuntimeWarning memoryview format ord chr'''.split())


def builtin(name):
    if name in BUILTINS:
        return Ext('builtins.' + name)
    if name in ('__name__', '__file__', '__doc__'):
        return T.sym(name, 'str')
    return T.opaque('undefined name ' + name)


# ================================================================= containers
def enumerate_known(I, g, limit):
    """elements of an iterable if known: list of G or (G, guard)"""
    if isinstance(g, Ite):
        return None
    if isinstance(g, Tup):
        return list(g.items)
    if isinstance(g, Ref):
        c = I.cell(g)
        if isinstance(c, ListC):
            out = []
            for s in c.segs:
                if s[0] != 'i' or s[1] is PREV:
                    return None
                out.append(s[1] if s[2] is TRUE else (s[1], s[2]))
            return out if len(out) <= limit else None
        if isinstance(c, DictC):
            if c.base is not None or any(e[0] == 'each' for e in c.entries):
                return None
            return [e[0] if e[2] is TRUE else (e[0], e[2]) for e in c.entries]
        if isinstance(c, Arr) and isinstance(c.val, N) and c.val.op == 'list' and len(c.val.args) <= limit and not _symlist(c.val):
            return list(c.val.args)
        return None
    if isinstance(g, N):
        if g.op == 'const' and isinstance(g.param, str):
            return [const(ch) for ch in g.param] if len(g.param) <= limit else None
        if g.op in ('list', 'tuple') and not _symlist(g):
            return list(g.args)
        return None
    if isinstance(g, IterV):
        if g.kind == 'range':
            v = [x for x in g.parts]
            if all(T.isnum(x) for x in v):
                r = range(*[int(x.param) for x in v])
                return [const(i) for i in r] if len(r) <= limit else None
            return None
        if g.kind == 'list':
            return enumerate_known(I, g.parts[0], limit)
        if g.kind == 'reversed':
            p = enumerate_known(I, g.parts[0], limit)
            return p[::-1] if p is not None else None
        if g.kind == 'enumerate':
            p = enumerate_known(I, g.parts[0], limit)
            if p is None or any(isinstance(x, tuple) for x in p):
                return None
            st = g.parts[1]
            return [Tup((T.add(st, const(i)), x)) for i, x in enumerate(p)]
        if g.kind == 'zip':
            ps = [enumerate_known(I, p, limit) for p in g.parts]
            if any(p is None or any(isinstance(x, tuple) for x in p) for p in ps):
                # a known prefix decides the length when one side is known
                return None
            return [Tup(x) for x in zip(*ps)]
        if g.kind in ('items', 'values', 'keys'):
            l = g.parts[0]
            c = I.cell(l) if isinstance(l, Ref) else None
            if isinstance(c, DictC) and c.base is None and not any(e[0] == 'each' for e in c.entries):
                out = []
                for k, v, gd in c.entries:
                    x = {'items': Tup((k, v)), 'values': v, 'keys': k}[g.kind]
                    out.append(x if gd is TRUE else (x, gd))
                return out
            return None
        if g.kind == 'map':
            p = enumerate_known(I, g.parts[1], limit)
            if p is None or any(isinstance(x, tuple) for x in p):
                return None
            return [I.call(g.parts[0], [x], {}, None) for x in p]
    return None


def _symlist(n):
    return any(a.op in ('comp', 'compif', 'cond', 'map', 'star') for a in n.args)


def _rng(n):
    return H('rng', (n,))


def domain(I, g):
    """(domain term, element builder) of a symbolic iterable"""
    d = I.loopdepth

    def idx(dom):
        return H('idx', (dom,), d, isint=True, kind='int')

    if isinstance(g, IterV):
        if g.kind == 'range':
            lo, hi, st = g.parts
            if T.isnum(st) and st.param == 1:
                n = hi if T.isnum(lo) and lo.param == 0 else T.sub(hi, lo)
                dom = _rng(n)
                return dom, (lambda: T.add(lo, idx(dom)))
            if T.isnum(st) and st.param == -1:
                dom = _rng(T.sub(lo, hi))
                return dom, (lambda: T.sub(lo, idx(dom)))
            return None, None
        if g.kind == 'list':
            return domain(I, g.parts[0])
        if g.kind == 'enumerate':
            dom, e = domain1(I, g.parts[0])
            if dom is None:
                return None, None
            return dom, (lambda: Tup((T.add(g.parts[1], idx(dom)), e())))
        if g.kind == 'zip':
            doms = [domain1(I, p) for p in g.parts]
            if any(x[0] is None for x in doms):
                return None, None
            dom = doms[0][0]

            def el():
                out = []
                for dm, e in doms:
                    x = e()
                    if dm.fp != dom.fp:
                        x = reindex(I, x, dm, dom, d)
                    out.append(x)
                return Tup(out)
            return dom, el
        if g.kind in ('items', 'values', 'keys'):
            t = I._packed(I.val(g.parts[0]))
            if t.op in ('coords', 'attrs', 'data_vars') or True:
                dom = _rng(H('len', (T.H('keys', (t,)),), isint=True))

                def el():
                    k = H('index', (T.H('keys', (t,)), idx(dom)), kind='str')
                    if g.kind == 'keys':
                        return k
                    v = dict_lookup_term(I, t, k)
                    return Tup((k, v)) if g.kind == 'items' else v
                return dom, el
        if g.kind == 'map':
            dom, e = domain1(I, g.parts[1])
            if dom is None:
                return None, None
            return dom, (lambda: I.call(g.parts[0], [e()], {}, None))
        return None, None
    if isinstance(g, Ref):
        c = I.cell(g)
        if isinstance(c, Arr):
            if isinstance(c.val, Ite):
                t = I._packed(c.val)
            else:
                t = c.val
            f = I.full_cell(c)
            f = I._packed(f)
            dom = _rng(ops.length(t))
            if c.kind == 'da':
                return dom, (lambda: I.arr(ops.index(f, idx(dom)), 'da', [c], roots=c.roots, lazy=c.lazy))
            if c.kind == 'ds':
                return dom, (lambda: H('index', (H('keys', (f,)), idx(dom)), kind='str'))
            return dom, (lambda: ops.index(t, idx(dom)))
        if isinstance(c, ListC):
            if len(c.segs) == 1 and c.segs[0][0] == 'c' and c.segs[0][3] is TRUE and len(c.segs[0][2]) == 1 and c.segs[0][2][0][0] == 'i' and c.segs[0][2][0][2] is TRUE:
                _, dom, inner, _ = c.segs[0]
                return dom, (lambda: inner[0][1])
            t = I._packed(I.list_term(c, 'set' if isinstance(c, SetC) else 'list'))
            dom = _rng(H('len', (t,), isint=True))
            return dom, (lambda: H('index', (t, idx(dom))))
        if isinstance(c, DictC):
            t = I._packed(I.dict_term(c))
            dom = _rng(H('len', (T.H('keys', (t,)),), isint=True))
            return dom, (lambda: H('index', (T.H('keys', (t,)), idx(dom)), kind='str'))
        if isinstance(c, Obj):
            t = I._packed(c.term)
            dom = _rng(H('len', (t,), isint=True))
            return dom, (lambda: H('index', (t, idx(dom))))
    if isinstance(g, N):
        dom = _rng(ops.length(g))
        k = 'str' if g.op in ('keys', 'dims', 'data_vars', 'str:split') or g.kind == 'strs' else None

        def el():
            r = ops.index(g, idx(dom))
            if r.op == 'index' and k and r.kind is None:
                r.kind = k
            return r
        return dom, el
    return None, None


def iter_split(I, g):
    """zip/enumerate over an array chosen by a condition: one iterator per case"""
    def f(l):
        if isinstance(l, IterV) and l.kind in ('zip', 'enumerate', 'list'):
            parts = [arr_cases(I, iter_split(I, p)) for p in l.parts]
            if any(isinstance(p, Ite) and all(isinstance(x, (Ref, IterV)) for x in leaves(p)) for p in parts):
                keep = [isinstance(p, Ite) and all(isinstance(x, (Ref, IterV)) for x in leaves(p)) for p in parts]
                sel = [p for p, k in zip(parts, keep) if k]

                def mk(*xs):
                    xs = list(xs)
                    return IterV(l.kind, tuple(xs.pop(0) if k else p for p, k in zip(parts, keep)))
                return T.lift(mk, sel, ew=False)
        return l
    return T.gmap(f, g)


def arr_cases(I, g):
    """an array whose value depends on a condition: one array per case"""
    def f(l):
        c = I.cell(l) if isinstance(l, Ref) else None
        if isinstance(c, Arr) and isinstance(c.val, Ite) and not c.val.atom.ew and len(leaves(c.val)) <= 4:
            return T.lift(lambda x: I.new(c.with_(val=x)), [c.val], ew=False)
        return l
    return T.gmap(f, g)


def domain1(I, g):
    if isinstance(g, Ite):
        t = I._packed(I.val(g))
        return domain(I, t)
    items = enumerate_known(I, g, 200)
    if items is not None and not any(isinstance(x, tuple) for x in items):
        t = I._packed(I.val(Tup(items)))
        return domain(I, T.H('list', t.args))
    return domain(I, g)


def reindex(I, x, dm, dom, d):
    """the elements of a shorter/longer zip partner use the first one's index"""
    a = H('idx', (dm,), d, isint=True, kind='int')
    b = H('idx', (dom,), d, isint=True, kind='int')

    def f(l):
        if isinstance(l, N):
            return ops.subst(l, {a.fp: b})
        if isinstance(l, Ref):
            c = I.cell(l)
            if isinstance(c, Arr):
                return I.new(c.with_(val=ops.gsubst(c.val, {a.fp: b})))
        if isinstance(l, Tup):
            return Tup([ops.gsubst(y, {a.fp: b}, f) for y in l.items])
        return l
    return ops.gsubst(x, {a.fp: b}, f)


def unordered(c):
    """a set whose order is up to the hash seed: several members, not all numbers"""
    if not isinstance(c, SetC):
        return False
    if len(c.segs) > 1 or any(g[0] != 'i' or (isinstance(g[1], N) and g[1].op == 'star') for g in c.segs):
        return not all(g[0] == 'i' and isinstance(g[1], N) and g[1].op == 'const' and isinstance(g[1].param, (int, float)) for g in c.segs)
    return False


def set_order(I, x, node):
    """the order of set x flows into what node yields: an event, where the order can matter"""
    if unordered(I.cell(x)) and order_matters(I, node):
        I.ev('setiter', node, loop=node)


ANYORDER = {'any', 'all', 'sum', 'set', 'frozenset', 'sorted', 'min', 'max', 'len'}


def order_matters(I, node):
    """False where the consumer of node does not depend on the order of its items"""
    fr = I.frame
    tree = getattr(fr.mod, 'tree', None)
    if tree is None or node is None:
        return True
    par = getattr(tree, '_parents', None)
    if par is None:
        par = tree._parents = {id(c): p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}
    if isinstance(node, ast.For):
        return _loop_order(node)
    if isinstance(node, (ast.SetComp, ast.DictComp)):
        return False
    return _use_order(node, par, 0)


def _use_order(node, par, d):
    p = par.get(id(node))
    if p is None or d > 4:
        return True
    if isinstance(p, ast.Call) and node in p.args:
        if isinstance(p.func, ast.Name) and p.func.id in ANYORDER:
            return False
        if isinstance(p.func, ast.Name) and p.func.id in ('list', 'tuple', 'iter'):
            return _use_order(p, par, d + 1)
        if isinstance(p.func, ast.Attribute) and p.func.attr in ('mean', 'sum', 'std', 'var', 'min', 'max', 'count', 'any', 'all', 'drop_vars', 'reset_coords', 'set_coords', 'drop', 'union', 'intersection', 'issubset', 'update', 'difference', 'join' if _in_raise(p, par) else 'update'):
            return False
    if isinstance(p, ast.keyword) and p.arg in ('dim', 'axis', 'dims'):
        c = par.get(id(p))
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('mean', 'sum', 'std', 'var', 'min', 'max', 'count', 'any', 'all', 'median', 'prod', 'quantile', 'squeeze', 'dot', 'weighted'):
            return False
    if isinstance(p, ast.Compare):
        return False
    if isinstance(p, (ast.If, ast.While)) or (isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not)):
        return False
    if isinstance(p, ast.For) and p.iter is node:
        return _loop_order(p)
    if isinstance(p, ast.comprehension) and p.iter is node:
        c = par.get(id(p))
        return False if isinstance(c, (ast.SetComp, ast.DictComp)) else _use_order(c, par, d + 1)
    if _in_raise(node, par):
        return False
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        f = p
        while f is not None and not isinstance(f, (ast.FunctionDef, ast.Module)):
            f = par.get(id(f))
        nm = p.targets[0].id
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load):
                q = par.get(id(x))
                if isinstance(q, ast.Attribute) and q.attr == 'sort':
                    return False
        return any(_use_order(x, par, d + 1) for x in ast.walk(f)
                   if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load))
    return True


def _in_raise(node, par):
    while node is not None:
        if isinstance(node, ast.Raise):
            return True
        node = par.get(id(node))
    return False


def _loop_order(loop):
    var = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
    for st in loop.body:
        for x in ast.walk(st):
            if isinstance(x, (ast.Return, ast.Break, ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'insert', 'write'):
                return True
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and not isinstance(x.op, (ast.BitAnd, ast.BitOr)):
                return True
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) for t in x.targets):
                nm = {t.id for t in x.targets if isinstance(t, ast.Name)}
                ld = {n.id for n in ast.walk(x.value) if isinstance(n, ast.Name)}
                m = x.value.func.attr if isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) else None
                if (nm & ld and m not in ('drop_vars', 'squeeze', 'mean', 'sum', 'reset_coords', 'isel', 'sel', 'drop')) or (isinstance(x.value, ast.Name) and x.value.id in var):
                    return True
    return False


def iter_check(I, it, node, loop):
    for l in leaves(it):
        x = l
        while isinstance(x, IterV) and x.kind in ('enumerate', 'list', 'map', 'zip'):
            x = x.parts[-1] if x.kind == 'map' else x.parts[0]
            x = leaves(x)[0]
        if isinstance(x, Ref):
            set_order(I, x, node)


def exists(I, dom, g):
    if g is TRUE or g is FALSE:
        return g
    isidx = lambda x: x.op == 'idx' and x.args and x.args[0].fp == dom.fp
    at = atoms_of(g)
    if not any(ops.depends(a.n, isidx) for a in at.values()):
        return g
    n = T.pack(I._relabel(g, True))
    return T.mkite(T.atom(H('exists', (dom, n), kind='bool'), False), TRUE, FALSE)


def seg_nonempty(I, s):
    _, dom, segs, guard = s
    r = FALSE
    for x in segs:
        r = gor(r, x[2] if x[0] == 'i' else seg_nonempty(I, x))
    return gand(guard, exists(I, dom, r))


def comp_map(dom, body):
    return ops.comp_map(dom, body)


def sumover(dom, b):
    return ops.sumover(dom, b)


def loop_store(I, dom, pv, w, v0):
    return ops.loop_store(dom, pv, w, v0)


def wrap(v, d, c):
    return ops.wrap(v, d, c)


def store(b, i, v):
    return ops.store(b, i, v)


def list_append(I, l, v, node, guard=None):
    c = I.cell(l)
    I.mutate_event(l, node, 'append')
    if isinstance(c, SetC):
        I.heap[l.id] = SetC(_set_add(I, list(c.segs), ('i', v, TRUE)), c.roots)
    elif isinstance(c, ListC):
        I.heap[l.id] = ListC(c.segs + (('i', v, TRUE),), c.roots)


def list_extend(I, l, other, node):
    c = I.cell(l)
    I.mutate_event(l, node, 'extend')
    for o in leaves(other)[:1] if not isinstance(other, Ite) else []:
        items = enumerate_known(I, o, 5000)
        if items is not None:
            segs = list(c.segs)
            for x in items:
                x, g = x if isinstance(x, tuple) else (x, TRUE)
                segs.append(('i', x, g))
            I.heap[l.id] = type(c)(segs, c.roots)
            return
        oc = I.cell(o) if isinstance(o, Ref) else None
        if isinstance(oc, ListC):
            I.heap[l.id] = type(c)(c.segs + oc.segs, c.roots)
            return
    t = T.lift(lambda a: T.H('star', (a,)), [I.val(other)], ew=False)
    I.heap[l.id] = type(c)(c.segs + (('i', t, TRUE),), c.roots)


def _set_add(I, segs, s):
    if s[0] == 'i':
        k = T._kid(I.val(s[1]))
        for x in segs:
            if x[0] == 'i' and x[2] is TRUE and T._kid(I.val(x[1])) == k:
                return segs
    return segs + [s]


def make_set(I, items):
    segs = []
    for x in items:
        x, g = x if isinstance(x, tuple) else (x, TRUE)
        segs = _set_add(I, segs, ('i', x, g))
    return I.new(SetC(segs))


def to_set(I, g):
    if isinstance(g, Ite):
        return I.over(g, lambda l: to_set(I, l))
    items = enumerate_known(I, g, 5000)
    if items is not None:
        return make_set(I, items)
    c = I.cell(g) if isinstance(g, Ref) else None
    if isinstance(c, ListC):
        return I.new(SetC(c.segs))
    t = T.lift(lambda a: H('star', (a,)), [I.val(g)], ew=False)
    return I.new(SetC([('i', t, TRUE)]))


def set_update(I, l, other, node):
    I.mutate_event(l, node, 'update')
    c = I.cell(l)
    segs = list(c.segs)
    for o in (leaves(other) if not isinstance(other, Ite) else []):
        items = enumerate_known(I, o, 5000)
        oc = I.cell(o) if isinstance(o, Ref) else None
        if items is not None:
            for x in items:
                x, g = x if isinstance(x, tuple) else (x, TRUE)
                segs = _set_add(I, segs, ('i', x, g))
        elif isinstance(oc, ListC):
            for s in oc.segs:
                segs = _set_add(I, segs, s)
        else:
            segs.append(('i', T.lift(lambda a: H('star', (a,)), [I.val(o)], ew=False), TRUE))
    I.heap[l.id] = SetC(segs, c.roots)


def dict_set(I, l, k, v, node):
    c = I.cell(l)
    I.mutate_event(l, node, 'item assignment')
    if not isinstance(c, DictC):
        return
    kk = T._kid(I.val(k))
    ents = []
    done = False
    for e in c.entries:
        if e[0] != 'each' and T._kid(I.val(e[0])) == kk:
            ents.append((k, v, TRUE))
            done = True
        else:
            ents.append(e)
    if not done:
        ents.append((k, v, TRUE))
    I.heap[l.id] = DictC(c.base, ents, c.roots)


def dict_update(I, l, other, node):
    c = I.cell(l)
    I.mutate_event(l, node, 'update')
    if isinstance(other, Ite):
        return I.over(other, lambda o: dict_update(I, l, o, node))
    oc = I.cell(other) if isinstance(other, Ref) else None
    if isinstance(oc, DictC):
        if oc.base is not None:
            cur = I.cell(l)
            if cur.base is None and not cur.entries:
                I.heap[l.id] = DictC(oc.base, (), cur.roots)
            else:
                I.heap[l.id] = DictC(T.H('dictmerge', (I._packed(I.dict_term(cur)), oc.base)), (), cur.roots)
        for e in oc.entries:
            if e[0] == 'each':
                cur = I.cell(l)
                I.heap[l.id] = DictC(cur.base, cur.entries + (e,), cur.roots)
            elif e[2] is TRUE:
                dict_set(I, l, e[0], e[1], node)
            else:
                I.branch(e[2], lambda: dict_set(I, l, e[0], e[1], node), lambda: None)
        return
    cur = I.cell(l)
    if isinstance(cur, DictC):
        I.heap[l.id] = DictC(T.lift(lambda a: H('dictmerge', (I._packed(I.dict_term(cur)), a)), [I.val(other)], ew=False), (), cur.roots)


def dict_known(I, g):
    """[(str key, G)] of a fully known dict with constant keys"""
    if isinstance(g, Ite):
        return None
    c = I.cell(g) if isinstance(g, Ref) else None
    if not isinstance(c, DictC) or c.base is not None:
        return None
    out = []
    for e in c.entries:
        if e[0] == 'each' or e[2] is not TRUE or not (isinstance(e[0], N) and T.isconst(e[0]) and isinstance(e[0].param, str)):
            return None
        out.append((e[0].param, e[1]))
    return out


def dict_lookup_term(I, t, k):
    if t.op == 'coords':
        return I.new(Arr(ops.item(t.args[0], k), 'da', attrsrc=H('attrs', (t, k), 'coord'), roots=frozenset()))
    if t.op == 'data_vars':
        return I.new(Arr(ops.item(t.args[0], k), 'da', attrsrc=H('attrs', (t, k), 'coord')))
    return H('getitem', (t, k))


def dict_get(I, l, k, default, node):
    """d[k] (default None -> KeyError)"""
    c = I.cell(l)
    kt = I.val(k)
    if isinstance(kt, Ite):
        return I.over(k, lambda x: dict_get(I, l, x, default, node))

    def go(i):
        ents = I.cell(l).entries
        if i < 0:
            if c.base is not None:
                if default is not None:
                    return T.lift(lambda b: H('dictget', (c.base, kt, b)), [I.val(default)], ew=False)
                return dict_lookup_term(I, c.base, kt)
            if default is not None:
                return default
            I.do_raise('KeyError', I.live, node, None, implicit=True)
            I.live = FALSE
            return UNDEF
        e = ents[i]
        if e[0] == 'each':
            t = I._packed(I.dict_term(c))
            return H('getitem', (t, kt))
        cond = I.truth(compare(I, 'Eq', e[0], k, node))
        cond = gand(cond, e[2])
        return I.branch(cond, lambda: e[1], lambda: go(i - 1))
    r = go(len(c.entries) - 1)
    if isinstance(r, Ite) and any(x is UNDEF for x in leaves(r)):
        d = [x for x in leaves(r) if x is not UNDEF]
        if d:
            r = T.gmap(lambda x: d[0] if x is UNDEF else x, r)
    return r if r is not UNDEF else T.opaque('keyerror')


# ================================================================= strings
def strof(I, g):
    def f(l):
        if isinstance(l, N):
            if l.op == 'const':
                if isinstance(l.param, str):
                    return l
                if T.isnum(l):
                    if l.param.denominator == 1:
                        return const(str(l.param.numerator))
                    return const(repr(float(l.param)))
                return const(str(l.param))
            if I.kind(l) == 'str':
                return l
        return T.lift(lambda a: H('str', (a,), kind='str'), [I._val1(l)], ew=False)
    return T.gmap(f, g)


def strcat(parts):
    def f(*a):
        out = []
        for x in a:
            xs = x.args if x.op == 'strcat' else (x,)
            for y in xs:
                if out and T.isconst(out[-1]) and T.isconst(y) and isinstance(y.param, str) and isinstance(out[-1].param, str):
                    out[-1] = const(out[-1].param + y.param)
                elif T.isconst(y) and y.param == '':
                    continue
                else:
                    out.append(y)
        if not out:
            return const('')
        if len(out) == 1:
            return out[0]
        return H('strcat', out, kind='str')
    return T.lift(f, parts, ew=False)


def percent(I, a, b):
    """'...%s...%d' % args as a concatenation"""
    if not (isinstance(a, N) and T.isconst(a) and isinstance(a.param, str)):
        return None
    pieces = re.split(r'(%.)', a.param)
    spec = [p for p in pieces if p.startswith('%') and len(p) == 2]
    if any(p not in ('%s', '%d', '%%') for p in spec) or a.param.endswith('%') and not a.param.endswith('%%'):
        return None
    if isinstance(b, Tup):
        args = list(b.items)
    elif isinstance(b, Ite):
        return None
    else:
        args = [b]
    if len([p for p in spec if p != '%%']) != len(args):
        return None
    out = []
    for p in pieces:
        if p == '%%':
            out.append(const('%'))
        elif p in ('%s', '%d'):
            x = args.pop(0)
            if p == '%d' and not all(isinstance(l, N) and (l.isint or T.isnum(l) and isinstance(l.param, int)) for l in leaves(x)):
                return None
            out.append(I.val(strof(I, x)))
        elif p:
            out.append(const(p))
    return strcat(out)


def brace(I, s, args, kw=None):
    if not (isinstance(s, N) and T.isconst(s) and isinstance(s.param, str)):
        return None
    pieces = re.split(r'(\{\d*\})', s.param)
    if any('{' in p or '}' in p for p in pieces if not re.fullmatch(r'\{\d*\}', p)):
        return None
    out, n = [], 0
    for p in pieces:
        if re.fullmatch(r'\{\d*\}', p):
            i = int(p[1:-1]) if p != '{}' else n
            n += 1
            if i >= len(args):
                return None
            out.append(I.val(strof(I, args[i])))
        elif p:
            out.append(const(p))
    return strcat(out)


STRM = {'lower', 'upper', 'capitalize', 'title', 'strip', 'split', 'replace', 'startswith', 'endswith', 'swapcase', 'casefold',
        'lstrip', 'rstrip', 'find', 'count', 'isdigit', 'zfill', 'rsplit', 'partition'}


def str_method(I, s, name, args, node):
    if name == 'join':
        x = args[0]

        def j(l):
            items = enumerate_known(I, l, 500)
            if items is not None and not any(isinstance(i, tuple) for i in items):
                parts = []
                for i, it in enumerate(items):
                    if i:
                        parts.append(s)
                    parts.append(I.val(it))
                if isinstance(l, Ref) and isinstance(I.cell(l), SetC) and len(items) > 1:
                    return T.lift(lambda *a: H('setorder', a, 'join', kind='str'), parts, ew=False)
                return strcat(parts)
            return T.lift(lambda a: H('str:join', (s, a), kind='str'), [I.val(l)], ew=False)
        return I.over(x, j)
    if name == 'format':
        r = brace(I, s, args)
        if r is not None:
            return r
        return T.lift(lambda *a: H('str:format', (s,) + a, kind='str'), [I.val(a) for a in args], ew=False)
    avals = [I.val(a) for a in args]

    def f(*a):
        if T.isconst(s) and all(T.isconst(x) for x in a) and name in STRM:
            py = [int(x.param) if T.isnum(x) else x.param for x in a]
            try:
                r = getattr(s.param, name)(*py)
            except Exception:
                return T.opaque('str.' + name)
            if isinstance(r, list):
                return H('pylist', [const(x) for x in r])
            if isinstance(r, tuple):
                return H('tuple', [const(x) for x in r])
            return const(r)
        k = {'startswith': 'bool', 'endswith': 'bool', 'isdigit': 'bool', 'split': None, 'find': 'int', 'count': 'int', 'partition': None, 'rsplit': None}.get(name, 'str')
        return H('str:' + name, (s,) + tuple(a), kind=k)
    r = T.lift(f, avals, ew=False)

    def conv(l):
        if isinstance(l, N) and l.op == 'pylist':
            return I.new(ListC([('i', x, TRUE) for x in l.args]))
        return l
    return T.gmap(conv, r)


# ================================================================= unpack
def unpack(I, v, n, stars):
    if isinstance(v, Ite):
        ls = leaves(v)
        if all(isinstance(l, Tup) and len(l.items) == n for l in ls) and not any(stars):
            return [T.gmap(lambda l: l.items[i], v) for i in range(n)]
        parts = []
        res = I.over(v, lambda l: Tup(unpack(I, l, n, stars)))
        return [T.gmap(lambda l: l.items[i] if isinstance(l, Tup) else l, res) for i in range(n)]
    items = enumerate_known(I, v, 2000)
    if items is not None and not any(isinstance(x, tuple) for x in items):
        if any(stars):
            k = stars.index(True)
            tail = n - k - 1
            mid = items[k:len(items) - tail]
            return items[:k] + [I.new(ListC([('i', x, TRUE) for x in mid]))] + items[len(items) - tail:]
        if len(items) == n:
            return items
    if isinstance(v, Ref) and isinstance(I.cell(v), Arr):
        c = I.cell(v)
        return [I.arr(T.lift(lambda a: ops.index(a, const(i)), [c.val], ew=False), c.kind, [c], roots=c.roots) for i in range(n)]
    t = I.val(v)
    k = stars.index(True) if any(stars) else n
    out = []
    for i in range(n):
        if i == k:      # the starred part: what is left between the first k and the last n - k - 1
            ix = T.H('slice', (const(k) if k else NONE, const(k + 1 - n) if k + 1 < n else NONE, NONE))
        else:
            ix = const(i if i < k else i - n)
        out.append(T.lift(lambda a, ix=ix: ops.index(a, ix), [t], ew=False))
    return out


# ================================================================= types
KIND_TYPE = {'da': 'xarray.DataArray', 'ds': 'xarray.Dataset', 'np': 'numpy.ndarray', 'np0': 'numpy.ndarray', 'list': 'builtins.list',
             'float': 'builtins.float', 'int': 'builtins.int', 'str': 'builtins.str', 'bool': 'builtins.bool', 'tuple': 'builtins.tuple',
             'dict': 'builtins.dict', 'set': 'builtins.set', 'none': 'builtins.NoneType', 'function': 'builtins.function',
             'uxda': 'uxarray.UxDataArray', 'npscalar': 'numpy.float64', 'dask': 'dask.array.Array'}
SUPER = {'xarray.DataArray': {'da', 'uxda'}, 'xarray.Dataset': {'ds', 'uxds'}, 'numpy.ndarray': {'np', 'np0'}, 'builtins.list': {'list'},
         'builtins.float': {'float', 'npscalar'}, 'builtins.int': {'int', 'bool'}, 'builtins.str': {'str'}, 'builtins.bool': {'bool'},
         'builtins.tuple': {'tuple'}, 'builtins.dict': {'dict'}, 'builtins.set': {'set'}, 'uxarray.UxDataArray': {'uxda'},
         'numpy.number': {'npscalar'}, 'numpy.generic': {'npscalar'}, 'numpy.floating': {'npscalar'}, 'numbers.Number': {'int', 'float', 'bool', 'npscalar'},
         'numbers.Real': {'int', 'float', 'bool', 'npscalar'}, 'collections.abc.Sequence': {'list', 'tuple', 'str'},
         'collections.abc.Iterable': {'list', 'tuple', 'str', 'np', 'da', 'ds', 'dict', 'set'}, 'dask.array.Array': {'dask'},
         'dask.array.core.Array': {'dask'}, 'numpy.integer': set(), 'builtins.object': None, 'builtins.type': {'type'},
         'typing.Iterable': {'list', 'tuple', 'str', 'np', 'da', 'ds', 'dict', 'set'}}
KNOWN_KINDS = set(KIND_TYPE) | {'type'}


def typeof(I, g):
    def f(l):
        k = I.kind(l)
        if isinstance(l, Ext):
            return Ext('builtins.type')
        if k in KIND_TYPE:
            return Ext(KIND_TYPE[k])
        return H('type', (I._packed(I._val1(l)),), kind='type')
    return T.gmap(f, g)


def isinstance_(I, g, cls):
    names = class_names(I, cls)
    if names is None:
        return T.lift(lambda a, b: H('isinstance', (a, b), kind='bool'), [I.val(g), I.val(cls)], ew=False)

    def f(l):
        k = I.kind(l)
        if isinstance(l, Ext):
            k = 'type'
        und = []
        for n in names:
            s = SUPER.get(n)
            if s is None and n == 'builtins.object':
                return TRUE
            if k in KNOWN_KINDS:
                if s is None:
                    if n.startswith(('xarray.', 'numpy.', 'builtins.', 'pandas.', 'cftime.', 'pint.', 'dask.')):
                        continue
                    und.append(n)
                elif k in s:
                    return TRUE
            else:
                und.append(n)
        if not und:
            return FALSE
        v = I._packed(I._val1(l))
        r = FALSE
        for n in sorted(und):
            r = gor(r, I.nbool(H('isinstance', (v,), n, kind='bool')))
        return r
    return T.gmap(f, g)


def class_names(I, cls):
    if isinstance(cls, Ext):
        from .libext import canon
        return [canon(cls.name)]
    items = enumerate_known(I, cls, 50) if not isinstance(cls, Ite) else None
    if items is not None:
        out = []
        for x in items:
            r = class_names(I, x) if not isinstance(x, tuple) else None
            if r is None:
                return None
            out += r
        return out
    if isinstance(cls, N) and cls.op == 'union':
        return list(cls.param)
    if isinstance(cls, N) and cls.op == 'const' and cls.param is None:
        return ['builtins.NoneType']
    return None


NPATTR = set('''shape ndim dtype size T real imag clip astype min max mean sum std var all any argmax argmin ravel reshape copy
flatten transpose swapaxes tolist item round cumsum prod squeeze nbytes data fill sort take repeat dot conj dims'''.split()) - {'dims'}
DAATTR = NPATTR - {'ravel', 'reshape', 'flatten', 'swapaxes', 'fill', 'sort', 'take', 'repeat', 'tolist'} | set(
    'dims coords attrs name values to_numpy isel sel where interp rename chunk chunks chunksizes data indexes dt cf encoding variable to_dataset drop_vars'.split())
HAS = {'np': NPATTR, 'np0': NPATTR, 'da': DAATTR, 'uxda': DAATTR | {'uxgrid'}, 'list': set('append extend insert pop index copy sort reverse count remove clear'.split()),
       'float': set('real imag conjugate is_integer hex'.split()), 'int': set('real imag conjugate bit_length numerator denominator'.split()),
       'tuple': {'index', 'count'}, 'str': {'lower', 'upper', 'join', 'split', 'format', 'strip'},
       'ds': set('dims coords attrs data_vars isel sel mean sum min max rename where interp chunk chunks indexes cf variables to_dataarray drop_vars'.split())}


def hasattr_(I, g, name):
    def f(l):
        k = I.kind(l)
        if k in HAS and isinstance(name, str) and (name in NPATTR or name in DAATTR or name in HAS['ds'] or name in HAS['list'] or name in HAS['float']):
            return TRUE if name in HAS[k] else FALSE
        if k == 'none':
            return FALSE
        v = I._packed(I._val1(l))
        return I.nbool(H('hasattr', (v,), (name, duckness(I, l)), kind='bool'))
    return T.gmap(f, g)


def duckness(I, l):
    return 'duck' if I.kind(l) == 'duck' else ''


# ================================================================= comparison
CMP = {'Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE'}


def compare(I, op, a, b, node):
    if op in ('Is', 'IsNot'):
        r = _is(I, a, b)
        return r if op == 'Is' else gnot(r)
    if op in ('In', 'NotIn'):
        r = contains(I, a, b, node)
        return r if op == 'In' else gnot(r)
    arr = any(isinstance(l, Ref) and isinstance(I.cell(l), Arr) for g in (a, b) for l in leaves(g))
    ea, eb = a, b
    if not arr and op in ('Eq', 'NotEq'):
        r = pyeq(I, a, b)
        if r is not None:
            return r if op == 'Eq' else gnot(r)
    # set comparisons
    if op in ('LtE', 'Lt', 'GtE', 'Gt') and I.kinds(a) == {'set'} and I.kinds(b) == {'set'}:
        if op == 'LtE':
            return subset(I, a, b)
        if op == 'GtE':
            return subset(I, b, a)
        r = gand(subset(I, a, b), gnot(subset(I, b, a))) if op == 'Lt' else gand(subset(I, b, a), gnot(subset(I, a, b)))
        return r

    def order(x, y, strict):
        """x < y or x <= y; the larger or the smaller of two whole numbers is compared part by part"""
        if not arr and x.isint and y.isint:
            for t, left in ((x, True), (y, False)):
                if t.op in ('maximum', 'minimum'):
                    r = [order(p, y, strict) if left else order(x, p, strict) for p in t.args]
                    r = [I.nbool(p) if isinstance(p, N) else p for p in r]
                    both = (t.op == 'maximum') == left
                    return gand(*r) if both else gor(*r)
        return T.lt(x, y) if strict else T.le(x, y)

    def cmp_terms(x, y):
        if op == 'Eq':
            return T.eq(x, y)
        if op == 'NotEq':
            return T.notn(T.eq(x, y))
        if op == 'Lt':
            return order(x, y, True)
        if op == 'Gt':
            return order(y, x, True)
        if op == 'LtE':
            return order(x, y, False)
        return order(y, x, False)
    va, vb = I.val(a), I.val(b)
    lc = _lencmp(I, op, a, b, va, vb)
    if lc is not None:
        return lc
    v = T.lift(cmp_terms, [va, vb], ew=arr)
    if arr:
        from . import libext
        return libext.ew_result(I, v, [a, b])
    return v


def _lencmp(I, op, a, b, va, vb):
    """len({x, y, ...}) compared with 1"""
    for x, y, sw in ((va, vb, False), (vb, va, True)):
        if isinstance(x, N) and x.op == 'lenset' and isinstance(y, N) and T.isnum(y):
            items = x.aux
            o = op
            if sw:
                o = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op)
            k = y.param
            same = TRUE
            for i in items[1:]:
                same = gand(same, I.truth(pyeq(I, items[0], i)))
            if (o, k) in (('Eq', 1), ('LtE', 1), ('Lt', 2)):
                return same
            if (o, k) in (('NotEq', 1), ('Gt', 1), ('GtE', 2)):
                return gnot(same)
    return None


def _nonnull(p):
    """an element of the names of a dataset or array, or of a list of strings, is not None; nor is the first of several such"""
    if p.op == 'first':
        return all(isinstance(x, N) and (_nonnull(x) or T.isconst(x) and x.param is not None) for x in leaves(T.unpack(p.args[2])))
    if p.op == 'index':
        c = p.args[0]
        return c.op in ('data_vars', 'dims', 'coords', 'keys') or c.op == 'in' and c.kind in ('strs', 'intlist')
    return False


def _is(I, a, b):
    def f(x, y):
        for p, q in ((x, y), (y, x)):
            if isinstance(q, N) and q.op == 'const' and not T.isnum(q):
                if isinstance(p, N):
                    if p.op == 'const':
                        return TRUE if p is q else FALSE
                    if p.op == 'in' and p.kind == 'any':
                        return I.nbool(H('is', (p, q), kind='bool'))
                    if q.param is None:
                        if _nonnull(p):
                            return FALSE
                        if p.op in ('getitem', 'dictget', 'opaque', 'attr', 'prev', 'index', 'first'):
                            return I.nbool(H('is', (p, q), kind='bool'))
                        return FALSE
                    if p.kind == 'bool':
                        c = I.nbool(p)
                        return c if q.param is True else gnot(c) if q.param is False else FALSE
                    return I.nbool(H('is', (p, q), kind='bool'))
                return FALSE
        if isinstance(x, Ext) and isinstance(y, Ext):
            return TRUE if x.name == y.name else FALSE
        if isinstance(x, Ref) and isinstance(y, Ref):
            return TRUE if x.id == y.id else FALSE
        if x.key == y.key:
            return TRUE
        if isinstance(x, N) and isinstance(y, N) or (isinstance(x, (N, Ext)) and isinstance(y, (N, Ext))):
            u, v = I._val1(x), I._val1(y)
            return I.nbool(T.eq(u, v))
        return FALSE
    return lift_leaves(f, [a, b])


def lift_leaves(f, gs):
    memo = {}

    def rec(gs):
        k = tuple(T._kid(g) for g in gs)
        if k in memo:
            return memo[k]
        a = T.top(gs)
        if a is None:
            r = f(*gs)
        else:
            ps = [T.cof(g, a) for g in gs]
            r = T.mkite_ordered(a, rec(tuple(p[0] for p in ps)), rec(tuple(p[1] for p in ps)))
        memo[k] = r
        return r
    return rec(tuple(gs))


def pyeq(I, a, b):
    """== on python objects (not arrays); None if not decidable structurally"""
    def f(x, y):
        if isinstance(x, Ext) and isinstance(y, Ext):
            return TRUE if x.name == y.name else FALSE
        if isinstance(x, Tup) and isinstance(y, Tup):
            if len(x.items) != len(y.items):
                return FALSE
            r = TRUE
            for p, q in zip(x.items, y.items):
                r = gand(r, I.truth(pyeq(I, p, q)))
            return r
        kx, ky = I.kind(x), I.kind(y)
        if isinstance(x, Ref) and isinstance(y, Ref):
            cx, cy = I.cell(x), I.cell(y)
            if isinstance(cx, SetC) and isinstance(cy, SetC):
                if T._kid(I._val1(x)) == T._kid(I._val1(y)):
                    return TRUE
                kn = cx.known() is not None and cy.known() is not None and not any(
                    isinstance(v, N) and v.op == 'star' for s in (cx, cy) for v in s.known())
                if kn:
                    return gand(subset(I, x, y), subset(I, y, x))
            elif isinstance(cx, ListC) and isinstance(cy, ListC):
                p, q = cx.known(), cy.known()
                if p is not None and q is not None:
                    if len(p) != len(q):
                        return FALSE
                    r = TRUE
                    for u, v in zip(p, q):
                        r = gand(r, I.truth(pyeq(I, u, v)))
                    return r
        if isinstance(x, (Ext, Fn)) != isinstance(y, (Ext, Fn)) and not isinstance(x, N) and not isinstance(y, N):
            return FALSE
        for p, q in ((x, y), (y, x)):
            if isinstance(p, N) and T.isconst(p) and isinstance(q, (Ext, Fn, Tup, Ref)):
                return FALSE
        vx, vy = I._packed(I._val1(x)), I._packed(I._val1(y))
        return I.nbool(T.eq(vx, vy))
    return lift_leaves(f, [a, b])


def subset(I, a, b):
    """a <= b for sets"""
    def f(x, y):
        p = enumerate_known(I, x, 200)
        q = enumerate_known(I, y, 200)
        if p is not None and not any(isinstance(i, tuple) for i in p):
            r = TRUE
            for i in p:
                if isinstance(i, N) and i.op == 'star':
                    return I.nbool(H('subset', (I._packed(I._val1(x)), I._packed(I._val1(y))), kind='bool'))
                r = gand(r, I.truth(contains(I, i, y, None)))
            return r
        return I.nbool(H('subset', (I._packed(I._val1(x)), I._packed(I._val1(y))), kind='bool'))
    return lift_leaves(f, [a, b])


def contains(I, a, b, node):
    """a in b"""
    def f(x, y):
        if isinstance(y, Ext) or isinstance(y, Fn):
            return FALSE
        if isinstance(y, IterV) and y.kind == 'keys':
            y = leaves(y.parts[0])[0]
        if isinstance(y, IterV) and y.kind == 'list':
            y = leaves(y.parts[0])[0]
        items = enumerate_known(I, y, 500)
        if items is not None and not (isinstance(y, N) and I.kind(y) == 'str'):
            r = FALSE
            for i in items:
                g = TRUE
                if isinstance(i, tuple):
                    i, g = i
                if isinstance(i, N) and i.op == 'star':
                    e = I.nbool(H('contains', (i.args[0], I._packed(I._val1(x))), kind='bool'))
                else:
                    e = I.truth(pyeq(I, x, i))
                r = gor(r, gand(g, e))
            return r
        c = I.cell(y) if isinstance(y, Ref) else None
        if isinstance(c, DictC) and c.base is not None:
            r = I.nbool(H('contains', (c.base, I._packed(I._val1(x))), kind='bool'))
            for e in c.entries:
                if e[0] != 'each':
                    r = gor(r, gand(e[2], I.truth(pyeq(I, x, e[0]))))
            return r
        if isinstance(y, N) and T.isconst(y) and isinstance(x, N) and T.isconst(x) and isinstance(y.param, str) and isinstance(x.param, str):
            return TRUE if x.param in y.param else FALSE
        if isinstance(c, ListC):
            r = FALSE
            vx = I.val(x)
            for s in c.segs:
                if s[0] == 'i':
                    if isinstance(s[1], N) and s[1].op == 'star':
                        e = I.nbool(H('contains', (s[1].args[0], I._packed(vx)), kind='bool'))
                    else:
                        e = I.truth(pyeq(I, x, s[1]))
                    r = gor(r, gand(s[2], e))
                else:
                    r = gor(r, _contains_seg(I, s, x))
            return r
        vy = I._packed(I._val1(y))
        if vy.op == 'keys':
            vy = vy.args[0]
        return I.nbool(H('contains', (vy, I._packed(I._val1(x))), kind='bool'))
    return lift_leaves(f, [a, b])


def _contains_seg(I, s, x):
    _, dom, segs, guard = s
    r = FALSE
    for y in segs:
        if y[0] == 'i':
            r = gor(r, gand(y[2], I.truth(pyeq(I, x, y[1]))))
        else:
            r = gor(r, _contains_seg(I, y, x))
    return gand(guard, exists(I, dom, r))


# ================================================================= operators
from . import libext as _le  # noqa: E402
from .libext import (unary, binary, call_ext, call_term, opaque_call, decorate, generator_call)  # noqa: E402,F401
from .libmeth import (getattr_, setattr_, getitem, setitem, setcoord, delitem, call_method)  # noqa: E402,F401
