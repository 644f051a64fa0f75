"""check.py --property ID [--tier quick|thorough]: decide one property from /repo's current source.

exit 0: every obligation holds (or fails only where known-findings.txt says so)
exit 1: VIOLATION line(s)
exit 2: the analysis itself could not be carried out
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)

from sa import core  # noqa


def known_findings(pid):
    p = os.path.join(core.ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                out.append(line.split('key=', 1)[1])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for m in ('cdb', 'resp', 'queue', 'errs', 'mem', 'names', 'coro', 'files'):
        if os.path.exists(os.path.join(core.ROOT, 'sa', 'props', m + '.py')):
            importlib.import_module('sa.props.' + m)
    fn, floor = core.PROPS[pid]
    run = core.Run(pid, a.tier, seed)
    known = known_findings(pid)
    run.known = set(known)
    crashed = None
    try:
        fn(run)
    except core.Broken as x:
        run.err(pid, x)
    except (core.Unsupported, core.PathEnd, core.Diverges) as x:
        run.err(pid, x)
    except core.PyRaise as x:
        run.broken.append('%s: the analysed code raised outside a path: %s' % (pid, core.show(x)))
    except Exception as x:
        crashed = traceback.format_exc()
        run.broken.append('%s: %s' % (pid, x))
    new = {k: v for k, v in run.violations.items() if k not in known}
    old = {k: v for k, v in run.violations.items() if k in known}
    evdir = os.environ.get('SA_EVIDENCE') or os.path.join(core.ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    funcs = set()
    for e in run.engines:
        funcs |= e.stats['functions']
    cov = {
        'explanation': 'Abstract interpretation of the current source of /repo (no execution, no solver): every abstract '
                       'path of the listed entry points is followed with symbolic inputs and each obligation is decided '
                       'on each path.',
        'obligations': run.obligations,
        'discharged': run.discharged,
        'floor': floor,
        'paths': run.paths,
        'abstract_steps': sum(e.stats['steps'] for e in run.engines),
        'functions_analysed': len(funcs),
        'functions': sorted(str(f) for f in funcs)[:400],
        'rules': {k: {'obligations': v[0], 'discharged': v[1]} for k, v in sorted(run.by_rule.items())},
        'units': {k: sorted(map(str, v))[:200] for k, v in run.units.items()},
        'samples': run.samples,
        'undetermined': run.broken,
        'known_findings': sorted(old),
        'notes': run.notes,
    }
    ev = {'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other',
          'coverage': cov, 'wall_s': round(time.time() - run.t0, 3), 'violations': len(new),
          'assumptions': ['the frozen tables in /verif/spec and the library models in /verif/sa (Python builtins, ctypes '
                          'layout, infi.instruct 0.6.33, the POSIX/Win32 calls) are right']}
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d paths, %d functions, %.1fs' % (
        pid, run.obligations, run.discharged, run.paths, len(funcs), time.time() - run.t0))
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if new:
        rp = os.path.join(evdir, pid + '.replay.json')
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1, default=str)
        for k, v in list(new.items())[:20]:
            print('  %s' % k)
            if v['detail']:
                print('      %s' % v['detail'])
            if v.get('where'):
                print('      at %s' % (v['where'],))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if crashed:
        print(crashed)
    if run.broken:
        for m in run.broken[:20]:
            print('UNDETERMINED %s' % m)
        return 2
    if run.obligations < floor:
        print('ANALYSIS BROKEN: %d obligations, at least %d expected' % (run.obligations, floor))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
