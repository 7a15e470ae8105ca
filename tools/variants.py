"""Try behaviour-preserving edits and bugs on a scratch copy (development only): variants.py FILE.py [name...]
FILE defines V = [(name, 'keep'|'bug', prop, [(file, old, new), ...]), ...]"""
import os, subprocess, sys, runpy, shutil
W = '/tmp/vr%d' % os.getpid()
V = runpy.run_path(sys.argv[1])['V']
only = sys.argv[2:]
shutil.copytree('/repo', W, ignore=shutil.ignore_patterns('.git', '_build'))
try:
    for name, kind, props, edits in V:
        if only and name not in only:
            continue
        saved = {}
        for f, o, n in edits:
            p = W + '/' + f
            s = open(p).read()
            saved.setdefault(p, s)
            if s.count(o) < 1:
                print(name, 'TEXT NOT FOUND', o[:60])
            open(p, 'w').write(s.replace(o, n, 1))
        c = [f for f, _, _ in edits if f.endswith('.cc')]
        r = subprocess.run('cd %s && g++ -std=c++11 -fsyntax-only -fno-exceptions -fno-rtti -DLSMDB_PLATFORM_POSIX=1 -I. -Iinclude -I/repo/_build/include -w %s' % (W, c[0] if c else '-x c++ db/skiplist.h'), shell=True, capture_output=True, text=True)
        if r.returncode:
            print(name, 'DOES NOT COMPILE', r.stderr[:300])
        else:
            for prop in props.split():
                k = subprocess.run('./check.py ' + prop, shell=True, cwd='/verif', capture_output=True, text=True, env=dict(os.environ, VC_REPO=W, VERIF_SEED='1', VERIF_TIER='quick'))
                want = 0 if kind == 'keep' else 1
                lines = [l[:230] for l in k.stdout.splitlines() if l.startswith(('VIOL', 'FAILED', 'BOUND'))]
                nf = any('no-failing-input' in l for l in lines)
                print('%-28s %-4s %s rc=%d %s%s' % (name, kind, prop, k.returncode, 'as expected' if k.returncode == want else 'UNEXPECTED', ' (no input)' if nf else ''), flush=True)
                if k.returncode != want or kind == 'keep' and lines or nf:
                    print('   ' + '\n   '.join(lines[:6]), flush=True)
        for p, s in saved.items():
            open(p, 'w').write(s)
finally:
    shutil.rmtree(W)
