import sys,os,time
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from symx import engine,core,build,dom
import tempfile
eng=engine.Engine(sys.argv[1],os.environ.get('TIER','quick'),1)
w=tempfile.mkdtemp(prefix='dbg')
eng.prepare(os.environ.get('R','/repo'),w)
for si,s in enumerate(eng.scenarios):
    if len(sys.argv)>2 and not any(a in s[0] for a in sys.argv[2:]): continue
    eng.stats=core.Stats(); eng.lin=core.LinSolver(eng.stats)
    t=time.time()
    stack=[([],{})]; n=0; fails=[]; unk=0
    out=None
    tot=dict(paths=0,fails=[],unknown=0,uns=None,reached=0)
    items=[(si,[],{})]
    while items and time.time()-t<float(os.environ.get('LIM','60')):
        o=eng.work_item(items.pop(), time.time()+1e9)
        items+=o['pending']
        for k in('paths','unknown','reached'): tot[k]+=o[k]
        tot['fails']+=o['fails']; tot['uns']=tot['uns'] or o['unsupported']
        if tot['uns'] or tot['fails']: break
    print('%-30s %6d paths %7d reached %s unknown %d pend %d %s %.1fs (solver %.1f) %s'%(s[0],tot['paths'],tot['reached'],tot['fails'][:1],tot['unknown'],len(items),tot['uns'],time.time()-t,eng.stats.solver_s,eng.stats.d()['branch_queries']),flush=True)
import shutil; shutil.rmtree(w)
