#!/usr/bin/python3
"""Automatic behaviour-preserving rewrites of the whole package (to test that the checks stay quiet).

usage: refac.py NAME SRCDIR   rewrites SRCDIR/geocat/comp/*.py in place
"""
import ast
import copy
import glob
import sys


def names_used(fn):
    return {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {a.arg for n in ast.walk(fn) if isinstance(n, ast.arguments) for a in n.args + n.kwonlyargs}


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)


class Rename(ast.NodeTransformer):
    """every local variable gets another name"""

    def visit_FunctionDef(self, n):
        params = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        if n.args.vararg:
            params.add(n.args.vararg.arg)
        if n.args.kwarg:
            params.add(n.args.kwarg.arg)
        inner = set()
        for x in ast.walk(n):
            if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda)):
                inner |= {a.arg for a in x.args.args + x.args.kwonlyargs}
        st = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        gl = {y for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
        ren = {x: 'v_' + x[::-1] for x in st - params - gl - inner}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
        return n


class Flip(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)


class Temps(ast.NodeTransformer):
    """return EXPR -> result = EXPR; return result ; x = f(g(y)) -> t = g(y); x = f(t)"""

    def __init__(self):
        self.k = 0

    def stmts(self, body):
        out = []
        for s in body:
            s = self.visit(s)
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                self.k += 1
                nm = '_res%d' % self.k
                out.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=s.value))
                s = ast.Return(value=ast.Name(id=nm, ctx=ast.Load()))
            elif isinstance(s, ast.Assign) and isinstance(s.value, ast.Call):
                # arguments in order of evaluation: hoist the leading call-valued ones
                c = s.value
                pre = []
                if isinstance(c.func, ast.Name) or (isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name)):
                    ok = True
                    for i, a in enumerate(c.args):
                        if isinstance(a, (ast.Constant, ast.Name)):
                            continue
                        if isinstance(a, (ast.Starred, ast.Lambda)):
                            ok = False
                        if not ok:
                            break
                        self.k += 1
                        nm = '_t%d' % self.k
                        pre.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=a))
                        c.args[i] = ast.Name(id=nm, ctx=ast.Load())
                out += pre
            out.append(s)
        return out

    def generic_visit(self, n):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                setattr(n, f, self.stmts(b))
        for h in getattr(n, 'handlers', []):
            h.body = self.stmts(h.body)
        return n


class Outline(ast.NodeTransformer):
    """every function's body moves into a private helper with the same parameters"""

    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list:
                h = copy.deepcopy(s)
                h.name = '_impl_' + s.name
                doc = []
                if is_doc(h.body[0]):
                    doc = [h.body[0]]
                    h.body = h.body[1:] or [ast.Pass()]
                h.args.defaults = []
                h.args.kw_defaults = [None] * len(h.args.kwonlyargs)
                h.args.annotation = None
                h.returns = None
                call = ast.Call(func=ast.Name(id=h.name, ctx=ast.Load()),
                                args=[ast.Name(id=a.arg, ctx=ast.Load()) for a in s.args.posonlyargs + s.args.args]
                                + ([ast.Starred(ast.Name(id=s.args.vararg.arg, ctx=ast.Load()), ast.Load())] if s.args.vararg else []),
                                keywords=[ast.keyword(arg=a.arg, value=ast.Name(id=a.arg, ctx=ast.Load())) for a in s.args.kwonlyargs]
                                + ([ast.keyword(arg=None, value=ast.Name(id=s.args.kwarg.arg, ctx=ast.Load()))] if s.args.kwarg else []))
                s = copy.copy(s)
                s.body = doc + [ast.Return(value=call)]
                out.append(h)
            out.append(s)
        m.body = out
        return m


class Lambdas(ast.NodeTransformer):
    """binary expressions are computed by nested one-line helpers"""

    def visit_Module(self, m):
        self.new = []
        self.k = 0
        self.generic_visit(m)
        i = 0
        for i, s in enumerate(m.body):
            if not isinstance(s, (ast.Import, ast.ImportFrom)) and not is_doc(s):
                break
        m.body[i:i] = self.new
        return m

    def visit_FunctionDef(self, n):
        n.body = [self.visit(s) for s in n.body]
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        nm = {ast.Add: '_add', ast.Sub: '_sub', ast.Mult: '_mul', ast.Div: '_div'}.get(type(n.op))
        if nm is None:
            return n
        if not any(f.name == nm for f in self.new):
            f = ast.parse('def %s(a, b):\n    return a %s b\n' % (nm, {'_add': '+', '_sub': '-', '_mul': '*', '_div': '/'}[nm])).body[0]
            self.new.append(f)
        return ast.Call(func=ast.Name(id=nm, ctx=ast.Load()), args=[n.left, n.right], keywords=[])


class Comps(ast.NodeTransformer):
    """x = [E for v in L if c]  ->  loop with append"""

    def stmts(self, body):
        out = []
        for s in body:
            s = self.visit(s)
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and isinstance(s.targets[0], ast.Name):
                g = s.value.generators[0]
                acc = '_acc_' + s.targets[0].id
                app = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=acc, ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[s.value.elt], keywords=[]))
                b = app
                for c in reversed(g.ifs):
                    b = ast.If(test=c, body=[b], orelse=[])
                out.append(ast.Assign(targets=[ast.Name(id=acc, ctx=ast.Store())], value=ast.List(elts=[], ctx=ast.Load())))
                out.append(ast.For(target=g.target, iter=g.iter, body=[b], orelse=[]))
                out.append(ast.Assign(targets=s.targets, value=ast.Name(id=acc, ctx=ast.Load())))
                continue
            out.append(s)
        return out

    def generic_visit(self, n):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                setattr(n, f, self.stmts(b))
        for h in getattr(n, 'handlers', []):
            h.body = self.stmts(h.body)
        return n


class NoElse(ast.NodeTransformer):
    """if c: ...return/raise else: B -> if c: ...; B"""

    def stmts(self, body):
        out = []
        for s in body:
            s = self.visit(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                e = s.orelse
                s.orelse = []
                out.append(s)
                out += e
                continue
            out.append(s)
        return out
    generic_visit = Comps.generic_visit


class Misc(ast.NodeTransformer):
    """commuted sums and products of arrays, and/or through nested ifs, x**2 -> x*x, a/b etc."""

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name):
            return n
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and not any(isinstance(x, (ast.List, ast.Tuple, ast.Constant)) and not isinstance(getattr(x, 'value', 0), (int, float)) for x in (n.left, n.right)):
            return ast.BinOp(left=n.right, op=n.op, right=n.left)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, ast.Name):
            return ast.BinOp(left=n.left, op=ast.Mult(), right=n.left)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            return ast.Compare(left=n.comparators[0], ops=[m[type(n.ops[0])]()], comparators=[n.left])
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            b = n.body
            for v in reversed(n.test.values):
                b = [ast.If(test=v, body=b, orelse=[])]
            return b[0]
        return n


class Strings(ast.NodeTransformer):
    """f-strings by format()"""

    def visit_JoinedStr(self, n):
        fmt, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace('{', '{{').replace('}', '}}')
            else:
                if v.format_spec is not None or v.conversion != -1:
                    return n
                fmt += '{}'
                args.append(v.value)
        return ast.Call(func=ast.Attribute(value=ast.Constant(fmt), attr='format', ctx=ast.Load()), args=args, keywords=[])


class Kwargs(ast.NodeTransformer):
    """calls of package functions: positional arguments by keyword"""

    def __init__(self, sigs):
        self.sigs = sigs

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.sigs and not any(isinstance(a, ast.Starred) for a in n.args):
            ps = self.sigs[n.func.id]
            if len(n.args) <= len(ps):
                n.keywords = [ast.keyword(arg=p, value=a) for p, a in zip(ps, n.args)] + n.keywords
                n.args = []
        return n


class NoOps(ast.NodeTransformer):
    """statements that do nothing"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if is_doc(n.body[0]) and len(n.body) > 1 else 0
        n.body[i:i] = ast.parse('_unused = 0\n').body + [ast.Pass()]
        return n


class Wrap(ast.NodeTransformer):
    """top-level if/elif chains become guard helpers: raise statements move into a function"""

    def visit_Module(self, m):
        self.used = False
        self.generic_visit(m)
        if self.used:
            for i, s in enumerate(m.body):
                if not isinstance(s, (ast.Import, ast.ImportFrom)) and not is_doc(s):
                    break
            m.body[i:i] = ast.parse('def _fail(cls, *args):\n    raise cls(*args)\n').body
        return m

    def visit_Raise(self, n):
        if isinstance(n.exc, ast.Call) and isinstance(n.exc.func, ast.Name) and n.cause is None and not n.exc.keywords:
            self.used = True
            return ast.Expr(ast.Call(func=ast.Name(id='_fail', ctx=ast.Load()), args=[n.exc.func] + n.exc.args, keywords=[]))
        return n


class Match(ast.NodeTransformer):
    """while loops instead of for over range"""

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) and not n.orelse \
                and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(n)):
            i = n.target.id
            return [ast.Assign(targets=[ast.Name(id='_n_' + i, ctx=ast.Store())], value=n.iter.args[0]),
                    ast.Assign(targets=[ast.Name(id=i, ctx=ast.Store())], value=ast.Constant(0)),
                    ast.While(test=ast.Compare(left=ast.Name(id=i, ctx=ast.Load()), ops=[ast.Lt()], comparators=[ast.Name(id='_n_' + i, ctx=ast.Load())]),
                              body=n.body + [ast.AugAssign(target=ast.Name(id=i, ctx=ast.Store()), op=ast.Add(), value=ast.Constant(1))], orelse=[])]
        return n


class Alias(ast.NodeTransformer):
    """np -> numpy, xr -> xarray, function-level from-imports"""

    def visit_Import(self, n):
        for a in n.names:
            if a.name in ('numpy', 'xarray') and a.asname:
                a.asname = 'the_' + a.name
        return n

    def visit_Name(self, n):
        n.id = {'np': 'the_numpy', 'xr': 'the_xarray'}.get(n.id, n.id)
        return n


ALL = {'rename': Rename, 'flip': Flip, 'temps': Temps, 'outline': Outline, 'lambdas': Lambdas, 'comps': Comps, 'noelse': NoElse, 'misc': Misc,
       'strings': Strings, 'noops': NoOps, 'wrap': Wrap, 'while': Match, 'alias': Alias}


def main(name, d):
    for p in sorted(glob.glob(d + '/geocat/comp/*.py')):
        src = open(p).read()
        t = ast.parse(src)
        if name == 'kwargs':
            sigs = {f.name: [a.arg for a in f.args.args] for f in t.body if isinstance(f, ast.FunctionDef) and not f.args.vararg}
            tr = Kwargs(sigs)
        else:
            tr = ALL[name]()
        t = ast.fix_missing_locations(tr.visit(t))
        out = ast.unparse(t) + '\n'
        if out != src:
            open(p, 'w').write(out)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
