#!/usr/bin/env python3
"""Verifies planted bugs: plant.py SPEC.py [ids...] writes /verif/seeded/<id>/ from a specification (a list BUGS of dicts
id, property, edits [(file, old, new)], demo, needs, breaks), and plant.py --verify [ids...] confirms the ones there:
the patch applies, changes lines of the original code, builds, the stable tests pass, the demonstration separates the two
trees, and the property's check reports it.  Everything happens in /repo, which is restored afterwards."""
import importlib.util, json, os, subprocess, sys, shutil, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = '585417f'

PRELUDE = '''# the transport of this demonstration is a stand-in: no device is opened
import sys
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh('git -C %s checkout -q -- .' % REPO)
    assert not sh('git -C %s status --porcelain' % REPO).stdout.strip(), 'the repository is not clean'


def make(bug):
    d = os.path.join(ROOT, 'seeded', bug['id'])
    os.makedirs(d, exist_ok=True)
    clean()
    for f, old, new in bug['edits']:
        p = os.path.join(REPO, 'src/infi/asi', f)
        t = open(p).read()
        assert t.count(old) == 1, (bug['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    r = subprocess.run('git -C %s diff' % REPO, shell=True, stdout=subprocess.PIPE)
    open(os.path.join(d, 'patch.diff'), 'wb').write(r.stdout)
    clean()
    open(os.path.join(d, 'demo.py'), 'w').write(PRELUDE + bug['demo'].strip('\n') + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def demo(d):
    r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=REPO)
    return r.returncode, r.stdout[-400:]


def original(patch):
    """at least one line the patch takes away (or stands next to) is a line of the original repository"""
    f, old, ok = None, 0, 0
    for l in open(patch):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            blame = sh('git -C %s blame -s -l %s' % (REPO, f)).stdout.splitlines()
            mine = set(i + 1 for i, b in enumerate(blame) if not b.startswith('^'))
            basefull = sh('git -C %s rev-parse %s' % (REPO, BASE)).stdout.strip()
            fixes = set(x for x in sh('git -C %s log --format=%%H %s..HEAD' % (REPO, BASE)).stdout.split())
            mine = set(i + 1 for i, b in enumerate(blame) if b.split()[0].lstrip('^') in fixes)
        elif l.startswith('@@'):
            old = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-') and not l.startswith('---'):
            if old in mine: print('   note: changes a line of a fix:', f, old)
            else: ok += 1
            old += 1
        elif l.startswith(' '): old += 1
    return ok


def verify(i, checks=True, alsorun=()):
    d = os.path.join(ROOT, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    clean()
    out = []
    rc, text = demo(d)
    if rc != 0: out.append('DEMO fails on the unchanged tree: rc %s %s' % (rc, text))
    if not original(os.path.join(d, 'patch.diff')): out.append('no original line changed')
    r = sh('git -C %s apply %s' % (REPO, os.path.join(d, 'patch.diff')))
    if r.returncode: return ['does not apply: %s' % r.stdout]
    try:
        r = sh('bash /opt/vp/build.sh')
        if r.returncode: out.append('BUILD %s' % r.stdout[-300:])
        r = sh('bash /opt/vp/test.sh /tmp/plant.json')
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = set(json.load(open('/tmp/plant.json'))['passed'])
        lost = [t for t in base if t not in passed]
        if lost: out.append('TESTS fail: %s' % lost[:3])
        rc, text = demo(d)
        if rc == 0: out.append('DEMO passes with the change')
        elif rc not in (1,): out.append('demo rc %s %s' % (rc, text))
        if checks:
            t0 = time.time()
            p = meta['property']
            r = sh('cd %s && SA_EVIDENCE=/tmp/plant.ev timeout 900 python3 -m sa.check --property %s --tier quick' % (ROOT, p))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            first = [l.strip() for l in r.stdout.splitlines() if l.startswith('  ')][:1]
            caught = r.returncode == 1 and v
            out.append('%s by %s in %.0f s: %s' % ('caught' if caught else 'MISSED rc %s' % r.returncode, p, time.time() - t0,
                                                  (r.stdout[-600:] if not caught else ' '.join(first)[:200])))
    finally:
        clean()
    return out


if __name__ == '__main__':
    if sys.argv[1] == '--verify':
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    else:
        s = importlib.util.spec_from_file_location('spec', sys.argv[1])
        m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        want = sys.argv[2:]
        ids = []
        for b in m.BUGS:
            if want and b['id'] not in want: continue
            make(b); ids.append(b['id'])
    for i in ids:
        print(i, '|', ' || '.join(verify(i)), flush=True)
    sh('bash /opt/vp/build.sh')
