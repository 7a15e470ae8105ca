"""tools/slow.py PID [seconds]: obligations by solver time, per function (development aid)"""
import sys,os,importlib,tempfile,collections
sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/tools'); sys.setrecursionlimit(20000)
from dbg import *
pid=sys.argv[1]; lim=float(sys.argv[2]) if len(sys.argv)>2 else 3
mod,prog=load(pid); pool=Pool(); rs=[gen_task(prog,t,all_models()) for t in mod.tasks(prog)]
ob=[(r.task.name,o) for r in rs for o in r.obls]
t0=time.time(); pool.discharge([o for _,o in ob],20); print('wall %.0f cpu %.0f'%(time.time()-t0,sum(o.secs or 0 for _,o in ob)))
c=collections.Counter(); s=collections.Counter()
for n,o in ob: c[o.backend]+=1; s[o.backend]+=o.secs or 0
print(c,s)
for n,o in sorted(ob,key=lambda x:-x[1].secs):
    if o.secs<lim: break
    print('%.1f %s %s %s | %s'%(o.secs,o.result,o.backend,n,o.label),o.line,'/'.join(o.trace)[-60:])
pool.close()
