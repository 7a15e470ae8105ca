import sys,os,importlib,tempfile,time
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from vc import build
from vc.ir import Program
from vc.run import *
from vc.models import all_models
from vc.solve import Pool
def load(pid):
    mod=importlib.import_module('props.'+pid)
    d=tempfile.mkdtemp(prefix='vcdbg')
    prog=Program(build.compile_ir(d,mod.TUS))
    return mod,prog
if __name__=='__main__':
    pid,tn=sys.argv[1:3]
    mod,prog=load(pid)
    pool=Pool()
    ts=[t for t in mod.tasks(prog)]
    for t in ts:
        if t.name!=tn: continue
        t0=time.time()
        r=gen_task(prog,t,all_models())
        print(t.name,r.status,r.why,len(r.obls),'gen %.1f'%(time.time()-t0), 'paths',len(r.covers))
        pool.discharge(r.obls,int(os.environ.get('B','20')))
        for o in sorted(r.obls,key=lambda o:-o.secs)[:int(os.environ.get('N','15'))]:
            print('%.1f'%o.secs,o.result,o.backend,o.label,o.line,'/'.join(o.trace)[-80:])
        bad=[o for o in r.obls if o.result!='proved']
        print(len(bad),'open')
        for o in bad[:int(os.environ.get('K','10'))]:
            print('OPEN',o.result,o.label,o.line,'/'.join(o.trace)[-160:])
            if os.environ.get('DUMP'):
                from vc.solve import to_smt2
                open('/tmp/open_%d.smt2'%bad.index(o),'w').write(to_smt2(o.hyps,o.goal))
            if os.environ.get('M') and o.model: print(str(o.model)[:int(os.environ['M'])])
