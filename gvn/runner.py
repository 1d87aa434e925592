"""Decide one property: run its obligations and rules on /repo's current source."""
import json
import os
import re
import signal
import sys
import time
import traceback
from . import oblig as O
from . import terms as T
from .drive import VERIF, REPO


class Finding:
    """a rule broken by a construct"""

    def __init__(self, rule, construct, text, site=None, undecided=False, known=None):
        self.rule, self.construct, self.text, self.site = rule, construct, text, site
        self.undecided, self.known = undecided, known

    def key(self):
        return '%s %s' % (self.rule, self.construct)


class TimeUp(Exception):
    pass


def _alarm(*a):
    raise TimeUp()


def known_file():
    """known-findings file: id -> (property, text)"""
    out, fixed = {}, []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: id=(\S+) property=(\S+) (.*)', line)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
            elif line.startswith('fixed:'):
                fixed.append(line.strip())
    return out, fixed


def site_str(s):
    return '%s:%s (%s)' % (s[0], s[1], s[2]) if s else ''


def run_ob(ob, pid, known, limit=120):
    """-> (status, findings, stats)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        ds, st = O.compare(ob)
        if ds and not any(d.undecided for d in ds):
            for kid, ref in ob.known:
                if pid not in known.get(kid, {}):
                    continue
                kob = ob.variant(ref)
                d2, _ = O.compare(kob)
                if not d2:
                    return 'known', [Finding('value-graph', ob.name(), known[kid][pid], ds[0].site, known=kid)], st
        if ds and ob.opaque:
            # the callee may have been inlined or split: compare through its body instead
            signal.alarm(60)
            try:
                d2, st2 = O.compare(ob.inlined())
            except (TimeUp, O.Missing, RecursionError):
                d2 = ds
            if not d2:
                return 'holds', [], st2
            if all(d.undecided for d in ds) and any(not d.undecided for d in d2):
                ds = d2
    except TimeUp:
        return 'undecided', [Finding('value-graph', ob.name(), 'analysis budget exceeded', undecided=True)], {}
    except O.Missing:
        raise
    except Exception as e:
        signal.alarm(0)
        if os.environ.get('GVN_DEBUG'):
            traceback.print_exc()
        return 'undecided', [Finding('value-graph', ob.name(), 'analysis failed: %s: %s' % (type(e).__name__, str(e)[:200]), undecided=True)], {}
    finally:
        signal.alarm(0)
    fs = []
    for d in ds:
        fs.append(Finding('value-graph', ob.name(), '%s: %s' % (d.where, O.describe(d)) + (' [undecided: %s]' % ', '.join(sorted(d.taint)) if d.taint else ''),
                          d.site, undecided=d.undecided))
    if any(not f.undecided for f in fs):
        return 'violated', [f for f in fs if not f.undecided], st
    if fs:
        return 'undecided', fs, st
    return 'holds', [], st


def main(pid, prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known, fixed = known_file()
    evdir = os.environ.get('GVN_EV') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    stat = {'holds': 0, 'violated': 0, 'undecided': 0, 'known': 0}
    findings, samples = [], []
    nterms = natoms = 0
    broken = None
    funcs, rules = set(), {}
    try:
        obs = prop.obligations(tier) if prop.obligations else []
        for ob in obs:
            s, fs, st = run_ob(ob, pid, known)
            stat[s] += 1
            funcs.add(ob.fn)
            nterms += st.get('terms', 0)
            natoms += st.get('atoms', 0)
            findings += fs
            if len(samples) < 12 or s != 'holds':
                samples.append({'obligation': ob.name(), 'reference': '.'.join(ob.ref), 'aspects': list(ob.aspects), 'verdict': s,
                                'terms': st.get('terms', 0)})
        for rule in prop.rules:
            T.reset()
            O._axc.clear()
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(400)
            try:
                res = rule(tier)
            except TimeUp:
                stat['undecided'] += 1
                findings.append(Finding(rule.__name__, '-', 'analysis budget exceeded', undecided=True))
                continue
            finally:
                signal.alarm(0)
            rules[rule.__name__] = {'doc': (rule.__doc__ or '').strip(), 'instances': res.instances, 'min_instances': res.minimum, 'sites': res.sites[:40]}
            if res.instances < res.minimum:
                broken = 'rule %s matched %d instance(s), expected at least %d' % (rule.__name__, res.instances, res.minimum)
            if res.selftest is False:
                broken = 'rule %s does not fire on its positive example' % rule.__name__
            nb = 0
            for f in res.findings:
                if f.known and pid in known.get(f.known, {}):
                    stat['known'] += 1
                    f.text = known[f.known][pid]
                else:
                    f.known = None
                    stat['undecided' if f.undecided else 'violated'] += 1
                nb += 1
                findings.append(f)
            stat['holds'] += max(0, res.instances - nb)
    except O.Missing as e:
        broken = 'the function %s no longer exists' % e
    except SyntaxError as e:
        broken = 'syntax error in %s: %s' % (e.filename, e)
    viol = [f for f in findings if not f.undecided and not f.known]
    total = sum(stat.values())
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': prop.explain + ' Every count is of this run: obligations are (function, abstract input configuration) pairs or rule instances decided on the '
            'source of /repo; nothing of /repo is imported or executed.',
            'obligations': total, 'discharged': stat['holds'], 'violated': stat['violated'], 'undecided': stat['undecided'], 'known_findings': stat['known'],
            'functions_analysed': sorted(funcs), 'rules': rules, 'value_numbers_compared': nterms, 'gate_predicates': natoms,
            'samples': samples[:60],
            'undecided_reasons': [f.construct + ': ' + f.text[:300] for f in findings if f.undecided][:20],
        },
        'wall_s': round(time.time() - t0, 3),
    }
    if viol:
        ev['coverage']['violations'] = [{'rule': f.rule, 'construct': f.construct, 'text': f.text, 'site': site_str(f.site)} for f in viol[:50]]
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d obligations, %d hold, %d violated, %d known, %d undecided; %.1fs' % (
        pid, prop.title, total, stat['holds'], stat['violated'], stat['known'], stat['undecided'], time.time() - t0))
    seen = set()
    for f in findings:
        if f.known and f.known not in seen:
            seen.add(f.known)
            print('KNOWN-FINDING: property=%s %s' % (pid, f.text))
    for f in findings:
        if f.undecided:
            print('UNDECIDED %s: %s %s' % (f.construct, f.text[:300], site_str(f.site)))
    if viol:
        rp = os.path.join(evdir, pid + '.replay.txt')
        with open(rp, 'w') as h:
            for f in viol:
                h.write('rule: %s\nconstruct: %s\nsite: %s\n%s\n\n' % (f.rule, f.construct, site_str(f.site), f.text))
        for f in viol[:8]:
            print('  %s | %s | %s | %s' % (f.rule, f.construct, site_str(f.site), f.text[:500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if broken:
        print('ANALYSIS-BROKEN %s: %s' % (pid, broken))
        return 2
    if total and stat['undecided'] == total:
        print('ANALYSIS-BROKEN %s: nothing could be decided' % pid)
        return 2
    return 0


class Rule:
    """result of a rule"""

    def __init__(self, minimum=1):
        self.instances, self.minimum, self.sites, self.findings, self.selftest = 0, minimum, [], [], None

    def at(self, desc):
        self.instances += 1
        self.sites.append(desc)

    def bad(self, *a, **k):
        self.findings.append(Finding(*a, **k))


class Prop:
    def __init__(self, title, obligations=None, rules=(), explain=''):
        self.title, self.obligations, self.rules, self.explain = title, obligations, rules, explain
