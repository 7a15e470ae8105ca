"""lists source lines of the executed functions no explored path reaches (vacuity check): cov.py PID..."""
import sys, re
sys.path.insert(0, '/verif/tools')
import dbg
from dbg import *
from vc.run import Lemma


def dead(fn, blk):
    if blk.term.op == 'unreachable':
        return True
    return False


def run(pid):
    mod, prog = load(pid)
    tot = {}
    for t in mod.tasks(prog):
        if isinstance(t, Lemma):
            continue
        r = gen_task(prog, t, all_models())
        if r.ex is None:
            continue
        for fn, vis in r.ex.visited.items():
            tot.setdefault(fn, set()).update(vis)
        print(pid, t.name, r.status, r.why, 'exits', len(r.covers))
        miss = []
        for fn, vis in r.ex.visited.items():
            for n, b in fn.blocks.items():
                if n not in vis and not dead(fn, b):
                    ls = [i.line for i in b.ins if getattr(i, 'line', None)]
                    miss.append((fn.demangled[:70], n, ls[:1]))
        for m in miss:
            print('     ', *m)


for p in sys.argv[1:]:
    run(p)
