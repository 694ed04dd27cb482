#!/usr/bin/env python3
"""Decide one property of /repo by static analysis of its source.

usage: check.py ID [--tier quick|thorough] [--root DIR]

exit 0: property holds on everything analysed; exit 1 and a VIOLATION line: a
rule fails at the reported construct; exit 2: the analysis could not be made.
"""
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


class OutOfTime(BaseException):
    pass


def out_of_time(*a):
    raise OutOfTime()


def known(prop):
    """rule descriptions recorded as known findings: property -> [(key, text)]"""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out.append((key, text))
    return out


def main():
    a = sys.argv[1:]
    prop = a[0]
    if prop == '--selftest':
        from sa.ctx import Ctx
        from sa.rules.registry import RULES
        Ctx('/repo')
        print('analyser loads, %d rules' % len(RULES))
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    root = '/repo'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--root' in a:
        root = a[a.index('--root') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from sa.rules.registry import RULES, ALWAYS_DEEP
    from sa.ctx import Ctx, AnalysisBroken
    from sa.spec import Report
    from sa.terms import show
    fn, title = RULES[prop][:2]
    R = Report(prop, title)
    broken = C = None
    signal.signal(signal.SIGALRM, out_of_time)
    signal.alarm(780)
    try:
        C = Ctx(root)
        fn(C, R, 'thorough' if prop in ALWAYS_DEEP else tier)
    except AnalysisBroken as e:
        R.undecided.append(('the remaining obligations', '', str(e)))
        if C is None:
            broken = str(e)
    except OutOfTime:
        R.undecided.append(('the remaining obligations', '', 'time limit of the analysis'))
    except Exception as e:      # a construct the rules were not written for decides nothing
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        R.undecided.append(('the remaining obligations', '', 'analyser: %r at %s:%s' % (e, tb[0], tb[1])))
        if C is None:
            broken = repr(e)
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
    signal.alarm(0)
    wall = time.time() - t0
    fails = R.failed
    kn = known(prop)
    new, old = [], []
    for f in fails:
        m = [k for k in kn if k[0] in '%s @ %s' % (f[1], f[2])]
        (old if m else new).append((f, m[0] if m else None))
    funcs = set()
    nev = nst = 0
    if not broken:
        funcs = C.I.stats['functions']
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': 'other',
        'coverage': {
            'explanation': 'Static abstract interpretation of %s/bloscpack: %d obligations of rule set %s (%s) over %d '
                           'entry contexts, %d functions reached; every obligation is decided for all values of the '
                           'entry symbols.' % (root, len(R.obs), prop, title, len(R.contexts), len(funcs)),
            'obligations': len(R.obs),
            'discharged': len(R.obs) - len(fails),
            'undecided': [list(u) for u in R.undecided],
            'contexts': [{'name': r.name, 'events': len(r.events), 'raise_completions': len(r.raises),
                          'loops': len(getattr(r, 'loops', [])), 'unmodelled': [str(u) for u in r.unmodelled]}
                         for r in R.contexts],
            'functions_analysed': sorted(funcs),
            'rules': [{'obligation': d, 'site': s, 'holds': o} for o, d, s, _ in R.obs],
            'interpreter': dict((k, v if isinstance(v, int) else len(v)) for k, v in
                                (C.I.stats.items() if not broken else ())),
        },
        'assumptions': R.assumptions + [
            'library models: blosc, zlib, hashlib, json, struct, numpy and file objects behave as documented',
            'callers use the public entry points with arguments of the documented types'],
        'wall_s': round(wall, 3), 'violations': len(new),
    }
    evdir = os.path.join(HERE, 'evidence') if root == '/repo' else os.path.join('/tmp', 'sa-evidence')
    os.makedirs(evdir, exist_ok=True)
    path = os.path.join(evdir, '%s.json' % prop)
    with open(path, 'w') as fp:
        json.dump(ev, fp, indent=1)
        fp.write('\n')
    if broken:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, broken))
        return 2
    for f, k in old:
        print('KNOWN-FINDING: property=%s %s @ %s' % (prop, f[1], f[2]))
    print('%s: %d obligations, %d failed, %d undecided, %d contexts, %.1fs' %
          (prop, len(R.obs), len(new), len(R.undecided), len(R.contexts), wall))
    for u in R.undecided:
        print('  undecided: %s @ %s (%s)' % u)
    if new:
        rp = os.path.join(evdir, '%s.violation.txt' % prop)
        with open(rp, 'w') as fp:
            for (o, d, s, x), _ in new:
                fp.write('obligation: %s\n  site: %s\n  detail: %s\n' % (d, s, x))
        for (o, d, s, x), _ in new:
            print('  FAILED: %s\n     at %s\n     %s' % (d, s, x[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
