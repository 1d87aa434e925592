"""Locating and loading the analysed modules (source text only)."""
import ast
import os
import hashlib
from .values import *  # noqa
from . import terms as T
from .interp import Interp, Module


class Program:
    """roots: {package prefix: directory}; every other import is external"""

    def __init__(self, roots, spec=None):
        self.roots = dict(roots)
        self.mods = {}
        self.errors = []
        self.trees = {}

    def find(self, name):
        for pre, d in self.roots.items():
            if name == pre or name.startswith(pre + '.'):
                parts = name[len(pre):].strip('.').split('.') if name != pre else []
                p = os.path.join(d, *parts)
                if os.path.isdir(p):
                    i = os.path.join(p, '__init__.py')
                    return i if os.path.exists(i) else None
                if os.path.exists(p + '.py'):
                    return p + '.py'
        return None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.find(name)
        if p is None:
            return None
        src = open(p).read()
        tree = ast.parse(src)
        rel = p
        for pre, d in self.roots.items():
            base = os.path.dirname(d.rstrip('/')) if pre != 'geocat' else os.path.dirname(d.rstrip('/'))
            if p.startswith(base + '/'):
                rel = p[len(base) + 1:]
        m = Module(name, p, rel, tree, src)
        self.mods[name] = m
        return m

    def internal(self, name):
        return any(name == p or name.startswith(p + '.') for p in self.roots)

    def resolve_import(self, I, name):
        m = self.module(name)
        if m is not None:
            I.load(m)
            return ModV(m)
        return Ext(name)

    def resolve_from(self, I, mod, name):
        m = self.module(mod)
        if m is not None:
            I.load(m)
            if name in m.globals:
                return m.globals[name]
            sub = self.module(mod + '.' + name)
            if sub is not None:
                I.load(sub)
                return ModV(sub)
            return T.opaque('import of %s from %s' % (name, mod))
        sub = self.module(mod + '.' + name)
        if sub is not None:
            I.load(sub)
            return ModV(sub)
        from .libattr import extattr
        return extattr(I, mod + '.' + name, None)

    def star(self, I, mod):
        m = self.module(mod)
        if m is None:
            return []
        I.load(m)
        al = m.globals.get('__all__')
        names = None
        if al is not None and not isinstance(al, Ite):
            items = I.lib.enumerate_known(I, al, 1000)
            if items is not None:
                names = [x.param for x in items if isinstance(x, N) and T.isconst(x)]
        return [(k, v) for k, v in m.globals.items() if (k in names if names is not None else not k.startswith('_'))]

    def submodule(self, mod, attr):
        m = self.module(mod.name + '.' + attr)
        return ModV(m) if m is not None else None
