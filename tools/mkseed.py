#!/usr/bin/env python3
"""mkseed.py [id...]: build /verif/seeded/<id> from tools/seedsrc/*.py and confirm each one in /repo
(patch applies, builds, stable tests pass, demo 0 without / nonzero with).  Development aid; no check uses it.
--check: also run the property's check against it."""
import json, os, shutil, subprocess, sys, glob, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
LIB = open(os.path.join(HERE, 'seedsrc', 'lib.txt')).read()
DEMO_SH = '''#!/bin/bash
export HOME="$(mktemp -d)" MPLBACKEND=Agg NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1
trap 'rm -rf -- "$HOME"' EXIT
D="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore "$D/demo.py"
'''
stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def load():
    seeds = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'seedsrc', '*.py'))):
        spec = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s['id'] not in seeds, s['id']
            seeds[s['id']] = s
    return seeds


def make(s):
    d = os.path.join(SEEDED, s['id'])
    assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo not clean'
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(LIB + '\n' + s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    try:
        r = sh('cd /repo && timeout 300 bash %s/demo.sh' % d)
        if r.returncode: return 'demo fails on clean tree: ' + r.stdout[-800:]
        for f, old, new in s['edits']:
            p = os.path.join('/repo', f); b = open(p, 'rb').read()
            crlf = b.count(b'\r\n') > b.count(b'\n') / 2
            o, n = old.encode(), new.encode()
            if crlf: o, n = o.replace(b'\n', b'\r\n'), n.replace(b'\n', b'\r\n')
            if b.count(o) != 1: return 'edit matches %d times: %s' % (b.count(o), old)
            open(p, 'wb').write(b.replace(o, n))
        open(d + '/patch.diff', 'wb').write(subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout)
        r = sh('cd /repo && timeout 300 bash %s/demo.sh' % d)
        if r.returncode == 0: return 'demo passes with the patch'
        msg = r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else ''
        if sh('bash /opt/vp/build.sh').returncode: return 'does not build'
        sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        t = json.load(open('/tmp/seedtest.json'))
        passed = set(t['passed'] if isinstance(t, dict) and 'passed' in t else [])
        miss = stable - passed
        if miss or not stable: return 'stable tests fail: %s' % sorted(miss)[:4]
        out = 'OK  (demo: %s)' % msg
        if '--check' in sys.argv:
            c = sh('cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.py %s' % s['property'])
            out += '\n      check exit %d %s' % (c.returncode, [l[:140] for l in c.stdout.splitlines() if 'VIOLATION' in l])
        return out
    finally:
        sh('git -C /repo checkout -- .')


if __name__ == '__main__':
    seeds = load()
    want = [a for a in sys.argv[1:] if not a.startswith('-')]
    for i, s in seeds.items():
        if want and not any(i.startswith(w) for w in want): continue
        if not want and os.path.exists(os.path.join(SEEDED, i, 'patch.diff')): continue
        r = make(s)
        print(i, r, flush=True)
        if not r.startswith('OK'): shutil.rmtree(os.path.join(SEEDED, i))
