"""Models of builtins and small standard-library functions."""
from .values import *  # noqa
from . import terms as T
from . import ops
from .terms import H, const
from .libext import (sig, pk, cells_of, cellof, build, ew, split, arith, cstr, cint, isnone, seqterm, unknown_call, pure_call)

TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def generic(I, name, args, kwargs, node):
    from . import lib
    short = name.split('.')[-1]
    if name.startswith('builtins.') and (short.endswith(('Error', 'Warning', 'Exception')) or short in ('StopIteration', 'KeyboardInterrupt')):
        return ExcV(short, list(args))
    if short in ('DaskError', 'LinAlgError', 'MissingDimensionsError', 'MergeError'):
        return ExcV(short, list(args))
    return NotImplemented


def L():
    from . import lib
    return lib


@reg('builtins.len')
def b_len(I, args, kwargs, node):
    def f(l):
        if isinstance(l, Ref):
            c = I.cell(l)
            if isinstance(c, SetC):
                kn = c.known()
                if kn is not None and not any(isinstance(x, N) and x.op == 'star' for x in kn):
                    if len(kn) <= 1:
                        return const(len(kn))
                    return H('lenset', tuple(pk(I, x) for x in kn), aux=list(kn), isint=True, kind='int')
                return H('len', (pk(I, l),), isint=True, kind='int')
            if isinstance(c, ListC):
                n = None
                for s in c.segs:
                    if s[0] == 'i' and s[2] is TRUE and not (isinstance(s[1], N) and s[1].op == 'star'):
                        k = T.ONE
                    elif s[0] == 'c' and s[3] is TRUE and len(s[2]) == 1 and s[2][0][0] == 'i' and s[2][0][2] is TRUE and s[1].op == 'rng':
                        k = s[1].args[0]
                    else:
                        return H('len', (pk(I, l),), isint=True, kind='int')
                    n = k if n is None else T.add(n, k)
                return n if n is not None else T.ZERO
            if isinstance(c, DictC):
                if c.base is None and all(e[0] != 'each' and e[2] is TRUE for e in c.entries):
                    return const(len(c.entries))
                return H('len', (pk(I, l),), isint=True, kind='int')
            if isinstance(c, Arr):
                if c.kind == 'ds':
                    return H('len', (H('data_vars', (I._packed(c.val),)),), isint=True, kind='int')
                return T.lift(ops.length, [c.val], ew=False)
        if isinstance(l, Tup):
            return const(len(l.items))
        if isinstance(l, N) and l.op == 'const' and isinstance(l.param, str):
            return const(len(l.param))
        from .lib import IterV
        if isinstance(l, IterV) and l.kind == 'range':
            lo, hi, st = l.parts
            if T.isnum(st) and st.param == 1:
                return T.sub(hi, lo)
        return T.lift(ops.length, [I._val1(l)], ew=False)
    r = T.gmap(f, args[0])

    return r


@reg('builtins.range')
def b_range(I, args, kwargs, node):
    a = [I.val(x) for x in args]
    a = [I._packed(x) if not isinstance(x, Ite) else x for x in a]
    if any(isinstance(x, Ite) for x in a):
        return split(I, args, lambda g: b_range(I, g, kwargs, node)) if any(not isinstance(l, N) for x in args for l in leaves(x)) else _over_all(I, a, lambda g: b_range(I, g, kwargs, node))
    if len(a) == 1:
        a = [T.ZERO, a[0], T.ONE]
    elif len(a) == 2:
        a = [a[0], a[1], T.ONE]
    return L().IterV('range', a)


def _over_all(I, gs, f):
    for i, g in enumerate(gs):
        if isinstance(g, Ite):
            return I.over(g, lambda l: _over_all(I, gs[:i] + [l] + gs[i + 1:], f))
    return f(gs)


@reg('builtins.enumerate')
def b_enumerate(I, args, kwargs, node):
    s = sig(args, kwargs, 'iterable', 'start')
    return I.over(s['iterable'], lambda l: L().IterV('enumerate', (l, s['start'] if s['start'] is not None else T.ZERO)))


@reg('builtins.zip')
def b_zip(I, args, kwargs, node):
    return _over_all(I, list(args), lambda g: L().IterV('zip', g))


@reg('builtins.map')
def b_map(I, args, kwargs, node):
    if len(args) != 2:
        return NotImplemented
    return _over_all(I, list(args), lambda g: L().IterV('map', g))


@reg('builtins.filter')
def b_filter(I, args, kwargs, node):
    items = L().enumerate_known(I, args[1], 200) if not isinstance(args[1], Ite) else None
    if items is None or any(isinstance(x, tuple) for x in items):
        return NotImplemented
    segs = []
    for x in items:
        g = I.truth(I.call(args[0], [x], {}, node) if args[0] is not NONE else x)
        if g is not FALSE:
            segs.append(('i', x, g))
    return I.new(ListC(segs))


@reg('builtins.reversed')
def b_reversed(I, args, kwargs, node):
    return I.over(args[0], lambda l: L().IterV('reversed', (l,)))


@reg('builtins.iter')
def b_iter(I, args, kwargs, node):
    return args[0]


@reg('builtins.next')
def b_next(I, args, kwargs, node):
    lib = L()

    def f(l):
        items = lib.enumerate_known(I, l, 500)
        default = args[1] if len(args) > 1 else None
        if items is not None:
            c = I.cell(l) if isinstance(l, Ref) else None
            if isinstance(l, Ref):
                lib.set_order(I, l, node)

            def go(i):
                if i == len(items):
                    if default is not None:
                        return default
                    I.do_raise('StopIteration', I.live, node, None, implicit=True)
                    I.live = FALSE
                    return T.opaque('stop')
                x = items[i]
                if isinstance(x, tuple):
                    return I.branch(x[1], lambda: x[0], lambda: go(i + 1))
                return x
            return go(0)
        c = I.cell(l) if isinstance(l, Ref) else None
        if isinstance(c, ListC) and len(c.segs) == 1 and c.segs[0][0] == 'c':
            _, dom, segs, guard = c.segs[0]
            if len(segs) == 1 and segs[0][0] == 'i':
                g = T.gand(guard, segs[0][2])
                ex = lib.exists(I, dom, g)
                first = I.firstval(dom, g, segs[0][1])

                def miss():
                    if default is not None:
                        return default
                    I.do_raise('StopIteration', I.live, node, None, implicit=True)
                    I.live = FALSE
                    return first
                return I.branch(ex, lambda: first, miss)
        v = pk(I, l)
        if v.op in ('keys', 'coords', 'data_vars'):
            return ops.index(v if v.op != 'coords' else H('keys', (v,)), T.ZERO)
        return H('next', (v,))
    return I.over(args[0], f)


@reg('builtins.isinstance')
def b_isinstance(I, args, kwargs, node):
    return L().isinstance_(I, args[0], args[1])


@reg('builtins.issubclass')
def b_issubclass(I, args, kwargs, node):
    def f(l):
        if isinstance(l, Ext):
            for k, n in L().KIND_TYPE.items():
                if n == l.name:
                    names = L().class_names(I, args[1])
                    if names is None:
                        return None
                    return TRUE if any(n2 == l.name or (L().SUPER.get(n2) is None and n2 == 'builtins.object') or k in (L().SUPER.get(n2) or ()) for n2 in names) else FALSE
        return H('issubclass', (pk(I, l), pk(I, args[1])), kind='bool')
    r = T.gmap(lambda l: f(l) or H('issubclass', (pk(I, l), pk(I, args[1])), kind='bool'), args[0])
    return r


@reg('builtins.type')
def b_type(I, args, kwargs, node):
    if len(args) != 1:
        return NotImplemented
    return L().typeof(I, args[0])


@reg('builtins.callable')
def b_callable(I, args, kwargs, node):
    return T.gmap(lambda l: TRUE if isinstance(l, (Fn, Ext, BM, Part)) else FALSE, args[0])


@reg('builtins.hasattr')
def b_hasattr(I, args, kwargs, node):
    n = cstr(args[1])
    return L().hasattr_(I, args[0], n) if n else H('hasattr', (pk(I, args[0]), pk(I, args[1])), kind='bool')


@reg('builtins.getattr')
def b_getattr(I, args, kwargs, node):
    n = cstr(args[1])
    if n is None:
        return NotImplemented
    if len(args) == 2:
        return I.over(args[0], lambda l: L().getattr_(I, l, n, node))

    def f(l):
        c = I.truth(L().hasattr_(I, l, n))
        return I.branch(c, lambda: L().getattr_(I, l, n, node), lambda: args[2])
    return I.over(args[0], f)


@reg('builtins.setattr')
def b_setattr(I, args, kwargs, node):
    n = cstr(args[1])
    if n is None:
        return NotImplemented
    I.over(args[0], lambda l: L().setattr_(I, l, n, args[2], node))
    return NONE


@reg('builtins.set', 'builtins.frozenset')
def b_set(I, args, kwargs, node):
    if not args:
        return I.new(SetC(()))
    return L().to_set(I, args[0])


@reg('builtins.list', 'builtins.tuple')
def b_list(I, args, kwargs, node):
    return _mklist(I, args, node, False)


def b_tuple(I, args, kwargs, node):
    return _mklist(I, args, node, True)


TABLE['builtins.tuple'] = b_tuple


def _mklist(I, args, node, tup):
    if not args:
        return Tup(()) if tup else I.new(ListC(()))
    lib = L()

    def f(l):
        items = lib.enumerate_known(I, l, 5000)
        c = I.cell(l) if isinstance(l, Ref) else None
        if isinstance(c, SetC):
            lib.set_order(I, l, node)
        if isinstance(c, SetC) and len(c.segs) > 1:
            t = H('setorder', (pk(I, l),))
            r = I.new(ListC([('i', H('star', (t,)), TRUE)]))
            return r
        if items is not None:
            if tup and not any(isinstance(x, tuple) for x in items):
                return Tup(items)
            return I.new(ListC([('i',) + x if isinstance(x, tuple) else ('i', x, TRUE) for x in items]))
        if isinstance(c, ListC):
            return I.new(ListC(c.segs))
        if isinstance(c, DictC):
            return H('keys', (pk(I, l),))
        if isinstance(l, N) and (l.op in ('dims', 'shape', 'tuple', 'keys', 'index') or l.kind == 'tuple'):
            if tup:
                return l
            return I.new(ListC([('i', H('star', (l,)), TRUE)]))
        if isinstance(l, N) and l.op in ('coords', 'data_vars', 'dict'):
            return H('keys', (l,))
        if isinstance(c, Arr) and c.kind == 'ds':
            return H('keys', (H('data_vars', (I._packed(c.val),)),))
        if isinstance(l, lib.IterV):
            if l.kind == 'keys':
                return H('keys', (pk(I, l.parts[0]),))
            dom, el = lib.domain(I, l)
            if dom is not None:
                r = I.new(ListC(()))
                I.loopdepth += 1
                e = el()
                I.loopdepth -= 1
                I.heap[r.id] = ListC([('c', dom, (('i', e, TRUE),), TRUE)])
                return r
        if isinstance(c, Arr):
            return I.new(c.with_(kind='list', roots=frozenset(), view=None, lazy=False)) if not tup else T.lift(lambda x: H('tupleof', (x,), kind='tuple'), [c.val], ew=False)
        return T.lift(lambda x: H('listof', (x,)), [I.val(l)], ew=False)
    return I.over(args[0], f)


@reg('builtins.dict')
def b_dict(I, args, kwargs, node):
    lib = L()
    r = I.new(DictC(None, ()))
    if args:
        def f(l):
            items = lib.enumerate_known(I, l, 200) if not isinstance(I.cell(l) if isinstance(l, Ref) else None, DictC) else None
            if items is not None and all(isinstance(x, Tup) and len(x.items) == 2 for x in items):
                for x in items:
                    lib.dict_set(I, r, x.items[0], x.items[1], node)
                return NONE
            if isinstance(l, lib.IterV) and l.kind == 'zip':
                dom, el = lib.domain(I, l)
                if dom is not None:
                    I.loopdepth += 1
                    e = el()
                    I.loopdepth -= 1
                    c = I.cell(r)
                    I.heap[r.id] = DictC(c.base, c.entries + (('each', dom, e.items[0], e.items[1], TRUE),), c.roots)
                    return NONE
            lib.dict_update(I, r, l, node)
            return NONE
        I.over(args[0], f)
    for k, v in kwargs.items():
        if k == '**':
            lib.dict_update(I, r, v, node)
        else:
            lib.dict_set(I, r, const(k), v, node)
    return r


@reg('builtins.sorted')
def b_sorted(I, args, kwargs, node):
    lib = L()

    def f(l):
        items = lib.enumerate_known(I, l, 500)
        if items is not None and not kwargs and all(isinstance(x, N) and T.isconst(x) for x in items):
            try:
                return I.new(ListC([('i', x, TRUE) for x in sorted(items, key=lambda n: n.param)]))
            except TypeError:
                pass
        t = H('sorted', (pk(I, l),) + tuple(H('kw', (pk(I, v),), k) for k, v in sorted(kwargs.items())))
        return I.new(ListC([('i', H('star', (t,)), TRUE)]))
    return I.over(args[0], f)


def _minmax(name):
    def f(I, args, kwargs, node):
        red = 'min' if name == 'minimum' else 'max'
        if len(args) > 1 and not kwargs:
            r = args[0]
            for a in args[1:]:
                r = ew(I, lambda x, y: T.minmax(name, x, y), [r, a])
            return r
        if len(args) == 1 and not kwargs:
            def g(l):
                items = L().enumerate_known(I, l, 60)
                if items and not any(isinstance(x, tuple) for x in items):
                    r = items[0]
                    for a in items[1:]:
                        r = ew(I, lambda x, y: T.minmax(name, x, y), [r, a])
                    return r
                return T.lift(lambda x: reduce1(red, x), [I.val(l)], ew=False)
            return I.over(args[0], g)
        return NotImplemented
    return f


TABLE['builtins.min'] = _minmax('minimum')
TABLE['builtins.max'] = _minmax('maximum')


def reduce1(red, x):
    if x.op == 'nonzero0':
        return H('nzmin' if red == 'min' else 'nzmax', x.args, isint=True)
    return H(red, (x,), isint=x.isint)


@reg('builtins.sum')
def b_sum(I, args, kwargs, node):
    s = sig(args, kwargs, 'iterable', 'start')

    def g(l):
        items = L().enumerate_known(I, l, 200)
        if items is not None:
            r = s['start'] if s['start'] is not None else T.ZERO
            for a in items:
                gd = TRUE
                if isinstance(a, tuple):
                    a, gd = a
                r0 = r
                r1 = I.binop('Add', r, a, node)
                r = r1 if gd is TRUE else T.ite(gd, r1, r0)
            return r
        c = I.cell(l) if isinstance(l, Ref) else None
        if isinstance(c, ListC) and len(c.segs) == 1 and c.segs[0][0] == 'c' and len(c.segs[0][2]) == 1 and c.segs[0][2][0][0] == 'i' and c.segs[0][3] is TRUE:
            _, dom, segs, _ = c.segs[0]
            b = I.val(segs[0][1])
            if segs[0][2] is not TRUE:
                b = T.ite(I._relabel(segs[0][2], True), b, T.ZERO)
            return ops.sumover(dom, I._packed(b))
        return T.lift(lambda x: T.linear('sum', x), [I.val(l)], ew=False)
    r = I.over(s['iterable'], g)
    if s['start'] is not None and False:
        pass
    return r


def _quant(isany):
    def f(I, args, kwargs, node):
        lib = L()

        def g(l):
            items = lib.enumerate_known(I, l, 500)
            if items is not None:
                r = FALSE if isany else TRUE
                for a in items:
                    gd = TRUE
                    if isinstance(a, tuple):
                        a, gd = a
                    t = I.truth(a)
                    if isany:
                        r = T.gor(r, T.gand(gd, t))
                    else:
                        r = T.gand(r, T.gimplies(gd, t))
                return r
            c = I.cell(l) if isinstance(l, Ref) else None
            if isinstance(c, ListC):
                r = FALSE
                for s in c.segs:
                    r = T.gor(r, segq(s))
                return r if isany else T.gnot(r)
            v = I._packed(T.gmap(lambda n: n, I.val(l)))
            return allany(I, v, isany)

        def segq(s):
            if s[0] == 'i':
                t = I.truth(s[1])
                return T.gand(s[2], t if isany else T.gnot(t))
            _, dom, segs, guard = s
            r = FALSE
            for x in segs:
                r = T.gor(r, segq(x))
            return T.gand(guard, lib.exists(I, dom, r))
        return I.over(args[0], g)
    return f


TABLE['builtins.any'] = _quant(True)
TABLE['builtins.all'] = _quant(False)


def allany(I, v, isany, extra=()):
    """any/all over all elements of an array term; all(x) is not any(not x)"""
    if v is TRUE or v is FALSE:
        return v
    neg = not isany
    g = I.truth(v, ew=True)
    if neg:
        g = T.gnot(g)
    if isinstance(g, Ite) and not extra:
        r = anycases(g)
        if r is not None:
            return T.gnot(r) if neg else r
    b = T.pack(g) if isinstance(g, Ite) else g
    r = H('any', (boolcanon(b),) + tuple(extra), kind='bool')
    return T.notn(r) if neg else r


YESNO = {'is_duck_array', 'isscalar', 'issubdtype', 'contains_cftime_datetimes', 'is_duck_dask_array', 'is_dict_like', 'is_scalar'}


def anycases(g):
    """any(p or q) is any(p) or any(q); a whole-call condition inside is a case.  None: nothing to split"""
    def lits(f):
        """literals of a disjunction, or None"""
        out = []
        while isinstance(f, Ite):
            if f.hi is TRUE:
                out.append(T.mkite(f.atom, TRUE, FALSE))
                f = f.lo
            elif f.lo is TRUE:
                out.append(T.mkite(f.atom, FALSE, TRUE))
                f = f.hi
            elif f.lo is FALSE and f.hi is not FALSE and not isinstance(f.hi, Ite) or f.hi is FALSE and not isinstance(f.lo, Ite):
                out.append(f)
                return out
            else:
                return None
        if f is not FALSE:
            return None
        return out

    def one(f):
        return T.mkite(T.atom(H('any', (boolcanon(T.pack(f)),), kind='bool'), False), TRUE, FALSE)
    split = [False]

    def go(f, n):
        if not isinstance(f, Ite):
            return f
        if n > 8:
            return one(f)
        for a in T.atoms_of(f).values():
            if not a.ew or a.n.op in ('call', 'hasattr', 'isinstance', 'any', 'in_') and (a.n.op != 'call' or str(a.n.param).rsplit('.')[-1] in YESNO):
                split[0] = True
                h, l = T.restrict(f, a.okey, True), T.restrict(f, a.okey, False)
                return T.ite(T.mkite(T.atom(a.n, False), TRUE, FALSE), go(h, n + 1), go(l, n + 1))
        ls = lits(f)
        if ls is not None and len(ls) > 1:
            split[0] = True
            r = FALSE
            for x in ls:
                r = T.gor(r, one(x))
            return r
        return one(f)
    r = go(g, 0)
    return r if split[0] else None


def boolcanon(b):
    """pw(c, True, False) -> c"""
    if b.op == 'pw' and b.args[1] is TRUE and b.args[2] is FALSE:
        return b.args[0]
    if b.op == 'pw' and b.args[1] is FALSE and b.args[2] is TRUE:
        return T.notn(b.args[0])
    return b


@reg('builtins.str', 'builtins.repr')
def b_str(I, args, kwargs, node):
    if not args:
        return const('')
    return L().strof(I, args[0])


@reg('builtins.format')
def b_format(I, args, kwargs, node):
    return T.lift(lambda a, b: H('fmt', (a, b), -1, kind='str'), [I.val(args[0]), I.val(args[1]) if len(args) > 1 else NONE], ew=False)


@reg('builtins.int')
def b_int(I, args, kwargs, node):
    if not args:
        return T.ZERO

    def f(x):
        if x is TRUE:
            return T.ONE
        if x is FALSE:
            return T.ZERO
        if x.isint:
            return x
        if x.op == 'const' and isinstance(x.param, str):
            try:
                return const(int(x.param))
            except ValueError:
                return T.opaque('int')
        if x.op in ('floor', 'trunc', 'rint'):
            return x
        return T.fn('trunc', x)
    v = [I._packed(T.gmap(lambda x: x, I.val(args[0])))] if cells_of(I, [args[0]]) else [I.val(args[0])]
    return T.lift(f, v, ew=False)


@reg('builtins.float')
def b_float(I, args, kwargs, node):
    if not args:
        return T.ZERO

    def f(x):
        if x.op == 'const' and isinstance(x.param, str):
            try:
                return const(float(x.param))
            except ValueError:
                return T.opaque('float')
        if x is TRUE or x is FALSE:
            return T.ONE if x is TRUE else T.ZERO
        return H('double', (x,)) if T.DTYPES else x
    return T.lift(f, [I.val(args[0])], ew=False)


@reg('builtins.bool')
def b_bool(I, args, kwargs, node):
    if not args:
        return FALSE
    return I.truth(args[0])


@reg('builtins.round')
def b_round(I, args, kwargs, node):
    if len(args) == 1:
        return ew(I, lambda x: T.fn('rint', x), args)
    return ew(I, lambda x, n: H('round', (x, n)), args)


@reg('builtins.divmod')
def b_divmod(I, args, kwargs, node):
    return Tup([I.binop('FloorDiv', args[0], args[1], node), I.binop('Mod', args[0], args[1], node)])


@reg('builtins.pow', 'math.pow')
def b_pow(I, args, kwargs, node):
    return ew(I, arith('Pow'), args[:2])


@reg('builtins.slice')
def b_slice(I, args, kwargs, node):
    a = list(args)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return SliceV(*a)


@reg('builtins.print')
def b_print(I, args, kwargs, node):
    I.ev('print', node)
    return NONE


@reg('builtins.id')
def b_id(I, args, kwargs, node):
    I.ev('nondet', node, what='id()')
    return H('id', (pk(I, args[0]),), isint=True, kind='int')


@reg('builtins.hash')
def b_hash(I, args, kwargs, node):
    I.ev('nondet', node, what='hash()')
    return H('hash', (pk(I, args[0]),), isint=True, kind='int')


@reg('builtins.globals', 'builtins.vars', 'builtins.locals')
def b_globals(I, args, kwargs, node):
    I.ev('reflect', node, what='globals()/vars()')
    f = getattr(getattr(node, 'func', None), 'id', '')
    if f == 'globals' or f == 'vars' and any(isinstance(l, (Fn, ModV, Ext)) for a in args for l in leaves(a)):
        return I.new(DictC(T.opaque('globals'), (), frozenset([('global', f + '()')])))
    return T.opaque('globals')


@reg('builtins.object')
def b_object(I, args, kwargs, node):
    return I.new(Obj(H('object', (), (node.lineno if node else 0,))))


@reg('functools.partial')
def f_partial(I, args, kwargs, node):
    return Part(args[0], args[1:], kwargs)


@reg('functools.wraps')
def f_wraps(I, args, kwargs, node):
    return Special('deco')


@reg('functools.lru_cache', 'functools.cache')
def f_lru(I, args, kwargs, node):
    if args and isinstance(args[0], Fn):
        from .libext import cached
        return cached(args[0])
    return Special('lru')


@reg('functools.reduce')
def f_reduce(I, args, kwargs, node):
    items = L().enumerate_known(I, args[1], 200) if not isinstance(args[1], Ite) else None
    if items is None or any(isinstance(x, tuple) for x in items):
        return NotImplemented
    items = list(items)
    r = args[2] if len(args) > 2 else items.pop(0)
    for x in items:
        r = I.call(args[0], [r, x], {}, node)
    return r


OPER = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'floordiv': 'FloorDiv', 'mod': 'Mod', 'pow': 'Pow',
        'and_': 'BitAnd', 'or_': 'BitOr', 'xor': 'BitXor', 'matmul': 'MatMult'}
for _k, _v in OPER.items():
    TABLE['operator.' + _k] = (lambda o: lambda I, args, kwargs, node: I.binop(o, args[0], args[1], node))(_v)
for _k, _v in {'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE'}.items():
    TABLE['operator.' + _k] = (lambda o: lambda I, args, kwargs, node: I.compare(o, args[0], args[1], node))(_v)


@reg('operator.getitem')
def o_getitem(I, args, kwargs, node):
    return I.over(args[0], lambda l: L().getitem(I, l, args[1], node))


@reg('operator.neg')
def o_neg(I, args, kwargs, node):
    return I.lib.unary(I, 'USub', args[0], node)


def _mod_warn(I, node):
    I.ev('warnstate', node)


@reg('warnings.warn')
def w_warn(I, args, kwargs, node):
    s = sig(args, kwargs, 'message', 'category', 'stacklevel', 'source')
    I.ev('warn', node, message=pk(I, s['message']) if s['message'] is not None else NONE,
         category=pk(I, s['category']) if s['category'] is not None else H('ext', (), 'builtins.UserWarning'))
    return NONE


@reg('warnings.catch_warnings')
def w_catch(I, args, kwargs, node):
    return Special('catch_warnings')


@reg('warnings.filterwarnings', 'warnings.simplefilter', 'warnings.resetwarnings')
def w_filter(I, args, kwargs, node):
    if not I.scope_warn:
        I.ev('global', node, name='warnings.filters', how='warning filter changed outside catch_warnings')
    return NONE


@reg('contextlib.suppress')
def c_suppress(I, args, kwargs, node):
    return Special('suppress')


@reg('itertools.product', 'itertools.chain')
def i_prod(I, args, kwargs, node):
    its = [L().enumerate_known(I, a, 300) if not isinstance(a, Ite) else None for a in args]
    if kwargs or any(x is None or any(isinstance(y, tuple) for y in x) for x in its):
        return NotImplemented
    f = node.func.attr if hasattr(node, 'func') and hasattr(node.func, 'attr') else getattr(getattr(node, 'func', None), 'id', '')
    import itertools
    if f == 'chain':
        return I.new(ListC([('i', x, TRUE) for x in itertools.chain(*its)]))
    return I.new(ListC([('i', Tup(x), TRUE) for x in itertools.product(*its)]))


@reg('typing.cast')
def t_cast(I, args, kwargs, node):
    return args[1]


@reg('copy.copy', 'copy.deepcopy')
def c_copy(I, args, kwargs, node):
    def f(l):
        if isinstance(l, Ref):
            c = I.cell(l)
            if isinstance(c, Arr):
                return I.new(c.with_(roots=frozenset(), view=None))
            if isinstance(c, DictC):
                return I.new(DictC(c.base, c.entries))
            if isinstance(c, ListC):
                return I.new(type(c)(c.segs))
        return l
    return I.over(args[0], f)


@reg('packaging.version.Version', 'packaging.version.parse')
def p_version(I, args, kwargs, node):
    return T.lift(lambda a: H('Version', (a,)), [I.val(args[0])], ew=False)


@reg('importlib.import_module')
def imp_mod(I, args, kwargs, node):
    n = cstr(args[0])
    if n is None:
        return NotImplemented
    I.import_event(node, n)
    return I.prog.resolve_import(I, n)


NONDET = {'time.time', 'time.perf_counter', 'time.monotonic', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.date.today',
          'random.random', 'random.shuffle', 'random.choice', 'random.uniform', 'random.randint', 'uuid.uuid4', 'os.urandom', 'secrets.token_bytes',
          'os.getpid', 'threading.get_ident'}


def _nondet(name):
    def f(I, args, kwargs, node):
        I.ev('nondet', node, what=name)
        return H('nondet', (), name)
    return f


for _n in NONDET:
    TABLE[_n] = _nondet(_n)

NDPREFIX = ('secrets.', 'platform.', 'locale.', 'socket.', 'getpass.', 'tempfile.', 'glob.', 'random.', 'uuid.', 'time.', 'resource.', 'psutil.', 'shutil.disk',
            'os.environ.', 'os.sched', 'os.times', 'os.stat', 'os.path.getmtime', 'os.path.exists', 'os.path.getsize', 'subprocess.', 'multiprocessing.',
            'threading.', 'select.', 'requests.', 'urllib.request.', 'pathlib.Path.cwd', 'pathlib.Path.home')
NDNAMES = {'os.getenv', 'os.cpu_count', 'os.getcwd', 'os.getlogin', 'os.listdir', 'os.scandir', 'os.uname', 'os.getloadavg', 'os.walk', 'builtins.id',
           'pandas.Timestamp.now', 'pandas.Timestamp.today', 'pandas.Timestamp.utcnow', 'pandas.to_datetime.now', 'cftime.datetime.now', 'datetime.datetime.today',
           'builtins.open', 'builtins.input', 'sys.getrefcount', 'gc.get_objects', 'builtins.hash', 'numpy.empty_like', 'sys.getsizeof', 'threading.active_count'}
NDVALUES = {'os.environ', 'sys.platform', 'sys.argv', 'os.name', 'sys.version', 'sys.executable', 'os.environb'}
UNSEEDED = {'numpy.random.RandomState', 'numpy.random.default_rng', 'numpy.random.SeedSequence', 'random.Random', 'numpy.random.PCG64', 'numpy.random.MT19937'}
SAFE = {'time.strftime', 'time.gmtime', 'time.mktime', 'time.strptime', 'time.struct_time', 'uuid.uuid5', 'uuid.uuid3', 'uuid.UUID', 'threading.Lock', 'threading.RLock',
        'time.sleep', 'locale.setlocale', 'random.seed', 'multiprocessing.Lock'}


def ambient(name, args, kwargs):
    """does this external function depend on anything but its arguments?"""
    if name in SAFE or name in TABLE:
        return False
    if name in UNSEEDED:
        return not args and not kwargs or any(isnone(a) for a in args[:1])
    if name.startswith('numpy.random.') and name != 'numpy.random.Generator':
        return True
    return name in NDNAMES - {'numpy.empty_like', 'builtins.hash', 'builtins.open', 'builtins.id'} or name.startswith(NDPREFIX)


def opens(I, args, kwargs, node):
    """open for writing changes a file"""
    m = args[1] if len(args) > 1 else kwargs.get('mode')
    s = T.show(pk(I, m), 3) if m is not None else 'r'
    if any(ch in s.strip("'\"") for ch in 'wax+') or m is not None and not (isinstance(m, N) and m.op == 'const'):
        I.ev('global', node, name='open', how='external file write')
    else:
        I.ev('nondet', node, what='open')


WRITES = ('numpy.save', 'numpy.savez', 'numpy.savetxt', 'numpy.ndarray.tofile', 'os.remove', 'os.unlink', 'os.mkdir', 'os.makedirs', 'os.rename', 'os.rmdir', 'os.replace',
          'os.write', 'shutil.', 'pickle.dump', 'json.dump', 'xarray.save_mfdataset', 'os.environ.', 'os.putenv', 'os.unsetenv', 'os.umask', 'os.chmod', 'os.kill',
          'joblib.dump', 'logging.basicConfig', 'logging.disable', 'logging.captureWarnings', 'logging.setLoggerClass', 'sys.settrace', 'sys.setprofile', 'signal.',
          'atexit.register', 'sys.set', 'gc.', 'decimal.setcontext', 'numpy.setbufsize', 'matplotlib.', 'dask.config.', 'pandas.options', 'threading.set', 'mpmath.mp')
READS = ('os.environ.get', 'os.environ.keys', 'os.environ.items', 'os.environ.values', 'os.environ.copy', 'os.environ.__', 'json.dumps', 'pickle.dumps', 'shutil.which',
         'shutil.disk_usage', 'gc.get', 'dask.config.get')


def changes(name):
    """an external function that changes process-wide state or files"""
    return name.startswith(WRITES) and not name.startswith(READS) and name not in TABLE

GLOBALSET = {'xarray.set_options', 'numpy.seterr', 'numpy.random.seed', 'random.seed', 'dask.config.set', 'pandas.set_option', 'os.putenv', 'os.chdir',
             'locale.setlocale', 'numpy.set_printoptions', 'sys.setrecursionlimit', 'numpy.seterrcall', 'cf_xarray.set_options', 'gc.disable', 'numpy.errstate'}


def _gset(name):
    def f(I, args, kwargs, node):
        if name in ('numpy.errstate',):
            return Special('errstate')
        I.ev('global', node, name=name, how='process-wide setting', inwith=True)
        return Special('setting')
    return f


for _n in GLOBALSET:
    TABLE[_n] = _gset(_n)
