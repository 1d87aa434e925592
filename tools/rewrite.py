"""Apply one hand-made rewrite: old text may be exact text, '@func NAME', or statements compared as syntax."""
import ast, textwrap


def replace(s, a, b):
    t = ast.parse(s)
    if a.startswith('@func '):
        n = [x for x in ast.walk(t) if isinstance(x, ast.FunctionDef) and x.name == a[6:]][0]
        return put(s, n.lineno, n.end_lineno, b)
    if s.count(a) == 1:
        return s.replace(a, b)
    want = [ast.dump(x) for x in ast.parse(textwrap.dedent(a)).body]
    hits = []
    for n in ast.walk(t):
        for f in ('body', 'orelse', 'finalbody'):
            L = getattr(n, f, None)
            if not isinstance(L, list):
                continue
            for i in range(len(L) - len(want) + 1):
                if all(ast.dump(L[i + j]) == w for j, w in enumerate(want)):
                    hits.append((L[i].lineno, L[i + len(want) - 1].end_lineno, L[i].col_offset))
    if len(hits) != 1:
        raise ValueError('%d matches for %r' % (len(hits), a[:100]))
    return put(s, hits[0][0], hits[0][1], textwrap.indent(textwrap.dedent(b), ' ' * hits[0][2]))


def put(s, first, last, b):
    L = s.split('\n')
    return '\n'.join(L[:first - 1] + b.strip('\n').split('\n') + L[last:])


if __name__ == '__main__':
    import glob, importlib, os, sys
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    for m in sorted(os.path.basename(x)[:-3] for x in glob.glob(here + '/refac[2-9].py')):
        for i, f, e in importlib.import_module(m).R:
            if i == sys.argv[1]:
                p = sys.argv[2] + '/' + f
                s = open(p).read()
                for a, b in e:
                    s = replace(s, a, b)
                ast.parse(s)
                open(p, 'w').write(s)
                sys.exit(0)
    sys.exit('no such id')
