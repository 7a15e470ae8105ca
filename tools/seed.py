"""Helper to plant, confirm and try out a bug (development only; no check uses this)."""
import json, os, subprocess, sys
W = '/tmp/sw'
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']
DEMO = '''#!/bin/bash
# exit 0: the property holds on the sources of the current directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -g -O1 -fno-exceptions -fno-rtti -w %s -DLSMDB_PLATFORM_POSIX=1 -I. -Iinclude -I_build/include "$D/demo.cc" %s -o "$T/demo" -lpthread %s || exit 3
mkdir "$T/scratch"; cd "$T/scratch" && timeout 200 "$T/demo"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def prep():
    if not os.path.isdir(W):
        sh('cp -a /repo %s; rm -rf %s/_build' % (W, W))
    sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % W)
    if not os.path.exists(W + '/_build/build.ninja'):
        r = sh('CC=gcc CXX=g++ cmake -S {0} -B {0}/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DLSMDB_BUILD_TESTS=ON -DCMAKE_PROJECT_lsmdb_INCLUDE=/opt/vp/cmake/googletest_hook.cmake'.format(W))
        assert r.returncode == 0, r.stderr
    r = sh('ninja -C %s/_build -j8' % W)
    assert r.returncode == 0, r.stdout

def tests():
    out = '/tmp/sw_res.txt'
    os.makedirs('/tmp/sw_tmp', exist_ok=True)
    r = sh('TEST_TMPDIR=/tmp/sw_tmp python3 /opt/vp/run_gtests.py %s/_build %s' % (W, out))
    ok = {l[5:].strip() for l in open(out) if l.startswith('PASS')}
    return [t for t in BASE if t not in ok]

def run_demo(d):
    r = sh('bash %s/demo.sh' % d, cwd=W)
    return r.returncode, (r.stdout + r.stderr)[-300:]

def confirm(sid, check=True, tier='quick'):
    d = '/verif/seeded/' + sid
    prep()
    a = run_demo(d)
    r = sh('git apply %s/patch.diff' % d, cwd=W)
    if r.returncode: print(sid, 'DOES NOT APPLY', r.stderr); return
    b = sh('ninja -C %s/_build -j8' % W)
    t = tests() if b.returncode == 0 else ['build']
    c = run_demo(d)
    meta = json.load(open(d + '/meta.json'))
    res = ''
    if check:
        k = sh('VC_REPO=%s VERIF_SEED=1 VERIF_TIER=%s timeout 900 ./check.py %s' % (W, tier, meta['property']), cwd='/verif')
        res = 'check rc=%d %s' % (k.returncode, ' | '.join(l for l in k.stdout.splitlines() if l.startswith(('VIOL', 'FAILED', 'BOUND')))[:500])
    ok = a[0] == 0 and c[0] not in (0, 3) and not t and b.returncode == 0
    print(sid, 'OK' if ok else 'BAD', 'demo before', a, 'after', c, 'failing tests', t, res)
    sh('git checkout -q -- .', cwd=W)

def mk(sid, prop, edits, demo, sources, needs, breaks, flags='', libs='', check=True):
    prep()
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    for f, o, n in edits:
        s = open(W + '/' + f).read()
        assert s.count(o) == 1, (sid, f, s.count(o))
        open(W + '/' + f, 'w').write(s.replace(o, n))
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=W).stdout)
    sh('git checkout -q -- .', cwd=W)
    open(d + '/demo.cc', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % (flags, sources, libs))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    confirm(sid, check)

if __name__ == '__main__':
    for s in (sys.argv[1:] or sorted(os.listdir('/verif/seeded'))):
        confirm(s)
