"""checks on surviving mutants -> /tmp/mut/res.json"""
import json,os,shutil,subprocess,sys,tempfile
from concurrent.futures import ThreadPoolExecutor
C=['C05','C16','C21','C03','C26','C06','C23','C15','C10','C20','C24','C13','C14','C19','C07','C08','C18','C01','C02','C22','C04','C25','C09','C11','C17','C12']
D=['C15','C16','C18','C05','C06','C23']+[c for c in C if c not in('C15','C16','C18','C05','C06','C23')]
RES='/tmp/mut/res.json'
res=json.load(open(RES)) if os.path.exists(RES) else {}
def one(m):
    if m['id'] in res: return
    w=tempfile.mkdtemp(prefix='sw-',dir='/tmp/mut')
    try:
        os.makedirs(w+'/repo')
        subprocess.run('cp -a /repo/. %s/repo/ && rm -rf %s/repo/.git'%(w,w),shell=True)
        p=w+'/repo/'+m['file']; L=open(p).read().split('\n'); L[m['line']]=m['new']; open(p,'w').write('\n'.join(L))
        order=D if 'DataStructure' in m['file'] or 'datastructure' in m['file'] else C
        log=[];caught=None
        for c in order:
            r=subprocess.run(['timeout','900','/verif/check',c],cwd='/verif',env=dict(os.environ,SACF_REPO=w+'/repo',SYMX_EVIDENCE=w+'/ev',SYMX_PROCS='2',SYMX_BUDGET='25'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            if r.returncode==1: caught=c;break
            if r.returncode: log.append((c,r.returncode,r.stdout[-300:]))
        res[m['id']]=dict(m,caught=caught,log=log)
        json.dump(res,open(RES,'w'),indent=0)
        print(caught,m['file'].split('/')[-1],m['line']+1,m['new'].strip()[:100],log,flush=True)
    finally: shutil.rmtree(w,ignore_errors=True)
al=json.load(open('/tmp/mut/alive.json'))
with ThreadPoolExecutor(int(sys.argv[1])) as ex: list(ex.map(one,al))
