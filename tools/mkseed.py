"""mkseed.py SPEC.py [ID...]: build seeded/<id>/ from a list of edits and confirm it.

SPEC.py defines SEEDS: a list of dicts id, property, needs, breaks, edits
[(file, old, new)...], demo (Python source; run with cwd the repository).
A seed is kept only if it applies, builds, passes the stable tests and the demo
tells the changed tree from the unchanged one.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
# exits 0 when the behaviour is right, nonzero when it is broken
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD REPO=$PWD W
exec_py() { timeout 250 /opt/venv/bin/python "$D/demo.py"; }
cd "$W" && exec_py
'''


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def one(s):
    c = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        repo = c + '/repo'
        sh('cp -a /repo %s' % repo)
        sh('git checkout -q -- . && git clean -fdq', repo)
        out = c + '/out'
        os.makedirs(out)
        open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        r = sh('bash %s/demo.sh' % out, repo)
        if r.returncode:
            return s['id'], 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-300:]
        for f, old, new in s['edits']:
            p = repo + '/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], 'pattern occurs %d times: %s' % (t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        open(out + '/patch.diff', 'w').write(sh('git diff', repo).stdout)
        for x in ('test', 'build'):
            t = open('/opt/vp/%s.sh' % x).read().replace('/repo', repo)
            open(c + '/%s.sh' % x, 'w').write(t)
        r = sh('bash %s/build.sh' % c, repo)
        if r.returncode:
            return s['id'], 'build fails: ' + r.stderr[-300:]
        r = sh('bash %s/demo.sh' % out, repo)
        if r.returncode == 0:
            return s['id'], 'demo does not notice the change'
        if r.returncode == 124:
            return s['id'], 'demo times out'
        note = (r.stdout + r.stderr).strip().splitlines()[-1:]
        r = sh('bash %s/test.sh %s/res.json' % (c, c), repo)
        res = json.load(open(c + '/res.json'))
        passed = set(res.get('passed', []))
        bad = sorted(STABLE - passed)
        if bad:
            return s['id'], 'tests notice the change: %s' % bad[:3]
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        d = V + '/seeded/' + s['id']
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(out, d)
        return s['id'], 'kept (%s)' % ''.join(note)[:120]
    except Exception as e:
        return s['id'], repr(e)
    finally:
        shutil.rmtree(c, ignore_errors=True)


todo = [s for s in spec['SEEDS'] if not only or s['id'] in only]
with ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(one, todo):
        print(i, m, flush=True)
