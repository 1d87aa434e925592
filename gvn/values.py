"""Abstract values of the interpreter: leaves of gated values and heap cells."""
from .terms import *  # noqa


class Leaf:
    __slots__ = ('key',)
    taint = frozenset()


class Ref(Leaf):
    """reference to a heap cell"""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id
        self.key = ('r', id)

    def __repr__(self):
        return '&%d' % self.id


class Fn(Leaf):
    __slots__ = ('node', 'mod', 'scope', 'name', 'defaults', 'kwdefaults', 'tag')

    def __init__(self, node, mod, scope, name, defaults, kwdefaults, tag=''):
        self.node, self.mod, self.scope, self.name = node, mod, scope, name
        self.defaults, self.kwdefaults, self.tag = defaults, kwdefaults, tag
        self.key = ('fn', mod.name, name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), id(scope) if scope else 0)

    def __repr__(self):
        return '<fn %s>' % self.name


class Ext(Leaf):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name
        self.key = ('e', name)

    def __repr__(self):
        return '<%s>' % self.name


class ModV(Leaf):
    __slots__ = ('mod',)

    def __init__(self, mod):
        self.mod = mod
        self.key = ('m', mod.name)


class Tup(Leaf):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)
        self.key = ('t',) + tuple(_kid2(x) for x in self.items)

    def __repr__(self):
        return 'Tup' + repr(self.items)


class SliceV(Leaf):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
        self.key = ('s', _kid2(lo), _kid2(hi), _kid2(step))


class BM(Leaf):
    """bound method of a heap object or a term"""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name
        self.key = ('bm', recv.key, name)


class Part(Leaf):
    __slots__ = ('fn', 'args', 'kwargs')

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs
        self.key = ('part', _kid2(fn), tuple(_kid2(a) for a in args), tuple((k, _kid2(v)) for k, v in sorted(kwargs.items())))


class ExcV(Leaf):
    __slots__ = ('type', 'args')

    def __init__(self, type, args):
        self.type, self.args = type, args
        self.key = ('exc', type, tuple(_kid2(a) for a in args))


class Special(Leaf):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name
        self.key = ('sp', name)

    def __repr__(self):
        return '<%s>' % self.name


UNDEF = Special('undef')
PREV = Special('prev')


def _kid2(g):
    from .terms import _kid
    return _kid(g)


# ---------------------------------------------------------------- heap cells
class Arr:
    """an array-like object: numpy array, DataArray, Dataset, index, …"""
    __slots__ = ('val', 'kind', 'roots', 'view', 'dims', 'coords', 'attrs', 'attrsrc', 'name', 'lazy')

    def __init__(self, val, kind, roots=frozenset(), view=None, dims=None, coords=None, attrs=None,
                 attrsrc=None, name=None, lazy=True):
        self.val, self.kind, self.roots, self.view = val, kind, roots, view
        self.dims, self.coords, self.attrs, self.attrsrc, self.name, self.lazy = dims, coords, attrs, attrsrc, name, lazy

    def with_(self, **kw):
        c = Arr(self.val, self.kind, self.roots, self.view, self.dims, self.coords, self.attrs, self.attrsrc, self.name, self.lazy)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class ListC:
    """items: tuple of ('i', G, guard) | ('c', dom N, segs tuple, guard)"""
    __slots__ = ('segs', 'roots')

    def __init__(self, segs, roots=frozenset()):
        self.segs, self.roots = tuple(segs), roots

    def known(self):
        if all(s[0] == 'i' and s[2] is TRUE for s in self.segs):
            return [s[1] for s in self.segs]
        return None


class SetC(ListC):
    __slots__ = ()


class DictC:
    """base: N or None (contents not enumerated); entries: tuple of (key G, val G, guard G)
    or ('each', dom, key G, val G, guard)"""
    __slots__ = ('base', 'entries', 'roots')

    def __init__(self, base=None, entries=(), roots=frozenset()):
        self.base, self.entries, self.roots = base, tuple(entries), roots


class Obj:
    """any other mutable object: attributes only"""
    __slots__ = ('term', 'fields', 'roots')

    def __init__(self, term, fields=None, roots=frozenset()):
        self.term, self.fields, self.roots = term, fields or {}, roots
