"""Analysis of one function of the repository (or of a specification) on abstract inputs."""
from .values import *  # noqa
from . import terms as T
from .terms import H, const
from .interp import Interp
from .program import Program
import os

REPO = os.environ.get('GVN_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def program():
    return Program({'geocat': os.path.join(REPO, 'geocat'), 'spec': os.path.join(VERIF, 'spec')})


class Analysis:
    def __init__(self, mod, prog=None):
        self.prog = prog or program()
        self.I = Interp(self.prog)
        self.mod = self.prog.module(mod)
        if self.mod is None:
            raise KeyError(mod)
        self.I.load(self.mod)
        self.module_events = list(self.I.events)

    def fn(self, name):
        g = self.mod.globals.get(name)
        while g is not None and not isinstance(g, Fn):
            return g
        return g


def inp(I, name, kind, lazy=True):
    """abstract input"""
    roots = frozenset([('in', name)])
    if kind in ('da', 'ds', 'np', 'duck', 'uxda', 'index', 'dask'):
        v = H('in', (), name, kind=kind)
        return I.new(Arr(v, kind, roots, lazy=lazy, attrsrc=H('attrs', (v,), 'of') if kind in ('da', 'ds', 'uxda') else None))
    if kind == 'list':
        return I.new(Arr(H('in', (), name, kind='np'), 'list', roots, lazy=False))
    if kind == 'dict':
        return I.new(DictC(H('in', (), name, kind='dict'), (), roots))
    if kind == 'intlist':
        return I.new(ListC([('i', H('star', (H('in', (), name),)), TRUE)], roots))
    if kind == 'strs':
        return H('in', (), name, kind='strs')
    if kind == 'any':
        return H('in', (), name)
    if kind in ('float', 'int', 'str', 'bool', 'scalar'):
        return H('in', (), name, kind=kind, isint=kind == 'int')
    raise ValueError(kind)


OTHER = H('other', (), 'other', kind='str')


def mk(I, name, spec):
    """spec: kind string | ('c', python constant) | ('other',) | ('tup', [...])"""
    if isinstance(spec, str):
        return inp(I, name, spec)
    if spec[0] == 'c':
        if isinstance(spec[1], (tuple, list)):
            items = [mk(I, name, ('c', x)) for x in spec[1]]
            return Tup(items) if isinstance(spec[1], tuple) else I.new(ListC([('i', x, TRUE) for x in items]))
        return const(spec[1])
    if spec[0] == 'other':
        return OTHER
    if spec[0] == 'list':
        return I.new(ListC([('i', mk(I, name + str(i), s), TRUE) for i, s in enumerate(spec[1])], frozenset([('in', name)])))
    if spec[0] == 'tup':
        return Tup([mk(I, name + str(i), s) for i, s in enumerate(spec[1])])
    if spec[0] == 'name':
        return mk(I, spec[1], spec[2])
    raise ValueError(spec)


class Result:
    pass


def run(mod, func, cfg, prog=None, A=None):
    """cfg: {param: spec}; parameters not named take their default"""
    A = A or Analysis(mod, prog)
    I = A.I
    f = A.fn(func)
    r = Result()
    r.A, r.I, r.f = A, I, f
    if not isinstance(f, Fn):
        r.missing = True
        return r
    r.missing = False
    I.events = []
    I.live = TRUE
    I.phase = 'call'
    kw = {}
    for k, s in cfg.items():
        kw[k] = mk(I, k, s)
    r.inputs = kw
    I.frame = A.mod.frame
    I.curline = 0
    pos = kw.pop('*args', None)
    r.value = I.call_fn(f, list(pos.items) if pos is not None else [], dict(kw), None)
    r.live = I.live
    r.events = list(I.events)
    return r
