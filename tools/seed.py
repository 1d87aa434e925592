#!/usr/bin/python3
"""seed.py TABLE.py [ID...]: build and confirm planted bugs (development tool; no check uses it).

TABLE.py defines BUGS = {id: (property, file, [(old, new), ...], needs, breaks, demo source)}.
Each bug is applied to a scratch copy of /repo; kept if it builds, passes the stable tests, and its demo
tells the two trees apart. Prints which checks report it."""
import json
import os
import shutil
import subprocess as sp
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = json.load(open('/opt/vp/BASELINE.json'))
IGN = ['test_climatologies', 'test_dask', 'test_interpolation', 'test_stats']


def sh(cmd, cwd, env=None, t=600):
    try:
        r = sp.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t,
                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', **(env or {})))
    except sp.TimeoutExpired:
        return 99, 'timeout'
    return r.returncode, r.stdout + r.stderr


def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    sp.run(['cp', '-a', '/repo', dst], check=True)


def tests(wt):
    x = os.path.join(wt, '.junit.xml')
    sh('%s -m pytest test -q -p no:cacheprovider --noconftest -n 4 --timeout=300 --continue-on-collection-errors %s -o junit_family=xunit2 --junitxml=%s' % (
        PY, ' '.join('--ignore=test/%s.py' % i for i in IGN), x), wt, {'PYTHONPATH': wt})
    import xml.etree.ElementTree as E
    bad = []
    n = 0
    for c in E.parse(x).getroot().iter('testcase'):
        f = any(ch.tag in ('failure', 'error') for ch in c)
        n += 1
        if f:
            bad.append(c.get('name'))
    os.remove(x)
    return n, bad


def one(bid, spec, base_bad):
    prop, file, edits, needs, breaks, demo = spec
    wt = '/tmp/s/wt_' + bid
    copy(wt)
    try:
        for f, es in ([(file, edits)] if isinstance(file, str) else zip(file, edits)):
            p = os.path.join(wt, f)
            s = open(p).read()
            for old, new in es:
                if s.count(old) != 1:
                    return bid, 'EDIT matches %d times: %r' % (s.count(old), old[:60])
                s = s.replace(old, new)
            open(p, 'w').write(s)
        _, diff = sh('git diff', wt)
        d = os.path.join(VERIF, 'seeded', bid)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(demo.strip('\n') + '\n')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the tree under test\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\n'
                                        'exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        rc0, o0 = sh('bash %s/demo.sh' % d, '/repo')
        rc1, o1 = sh('bash %s/demo.sh' % d, wt)
        msg = ''
        if rc0 or not rc1:
            msg = 'DEMO clean=%d planted=%d %s' % (rc0, rc1, (o0 if rc0 else o1)[-300:])
        else:
            n, bad = tests(wt)
            bad = [b for b in bad if b not in base_bad]
            if bad:
                msg = 'TESTS fail %d: %s' % (len(bad), bad[:3])
        if msg:
            shutil.rmtree(d)
            return bid, msg
        return bid, 'ok ' + fired(bid, prop, wt)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def fired(bid, prop, wt, all_=True):
    ids = [prop] + ([p for p in ALL if p != prop] if all_ else [])
    out = []
    for p in ids:
        rc, o = sh('/usr/bin/python3 -W ignore check.py %s' % p, VERIF, {'GVN_REPO': wt, 'GVN_EV': '/tmp/s/ev_' + bid}, 900)
        if rc == 1 and 'VIOLATION property=%s ' % p in o:
            out.append(p)
        elif rc:
            out.append('%s(rc=%d)' % (p, rc))
    shutil.rmtree('/tmp/s/ev_' + bid, ignore_errors=True)
    return '%s %s: %s' % (prop, 'CAUGHT' if prop in out else 'MISSED', ' '.join(out))


ALL = ['C%02d' % i for i in range(1, 36)]
if __name__ == '__main__':
    ns = {}
    ns["__file__"] = os.path.abspath(sys.argv[1]); exec(open(sys.argv[1]).read(), ns)
    bugs = ns['BUGS']
    want = sys.argv[2:] or list(bugs)
    if os.environ.get('OWN'):
        ALL = []
    copy('/tmp/s/wt_base')
    n, bad = tests('/tmp/s/wt_base')
    shutil.rmtree('/tmp/s/wt_base')
    print('base: %d tests, failing %s' % (n, bad[:5]), flush=True)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        for bid, msg in ex.map(lambda b: one(b, bugs[b], bad), want):
            print(bid, msg, flush=True)
