import subprocess,sys,os,shutil,tempfile
from concurrent.futures import ThreadPoolExecutor
COR='sacf/correlator/Correlator.cpp'; DS='sacf/datastructure/DataStructure.cpp'; CB='sacf/correlator/correlator_bindings.cpp'; PY='sacf/sacf.py'; CH='sacf/include/Correlator.h'
def run(c):
    name,edits,checks=c
    w=tempfile.mkdtemp(prefix='con-')
    try:
        subprocess.run('cp -a /repo/. %s/repo'%w,shell=True)
        for f,a,b in edits:
            p=w+'/repo/'+f; s=open(p).read()
            if a is None: s=b+s
            else:
                if s.count(a)<1: return name+': EDIT FAILS '+a[:60]
                s=s.replace(a,b,1)
            open(p,'w').write(s)
        res=[]
        for k in checks:
            r=subprocess.run(['timeout','900','/verif/check',k],cwd='/verif',env=dict(os.environ,SACF_REPO=w+'/repo',SYMX_EVIDENCE=w+'/ev',SYMX_PROCS='3'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            last=[l for l in r.stdout.split('\n') if l.strip()]
            res.append('%s=%d %s'%(k,r.returncode,'' if r.returncode==0 else ' | '.join([l for l in last if 'ERROR' in l or 'rror:' in l or 'VIOL' in l or 'scenario' in l][:3])[:900]))
        return name+': '+'; '.join(res)
    finally: shutil.rmtree(w,ignore_errors=True)
def main(cs):
    only=sys.argv[1:]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(run,[c for c in cs if not only or c[0] in only]): print(r,flush=True)
