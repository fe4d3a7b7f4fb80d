"""which mutants build and pass the tests -> /tmp/mut/alive.json"""
import json,os,shutil,subprocess,sys,tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,'/verif')
from symx import build
muts=json.load(open('/tmp/mut/all.json'))
SRC=['sacf/correlator/Correlator.cpp','sacf/correlator/correlator_bindings.cpp','sacf/datastructure/DataStructure.cpp','sacf/datastructure/datastructure_bindings.cpp']
DEP={'sacf/correlator/Correlator.cpp':[0],'sacf/datastructure/DataStructure.cpp':[1,2],'sacf/correlator/correlator_bindings.cpp':[1],'sacf/datastructure/datastructure_bindings.cpp':[3],'sacf/include/Correlator.h':[0,1],'sacf/sacf.py':[]}
FL=['g++','-fPIC','-std=c++14','-w','-fvisibility=hidden','-O0','-DNDEBUG','-I'+build.PYINC,'-include',build.COMPAT]
def comp(root,i,out):
    return subprocess.run(FL+['-I'+root+'/sacf/include','-I/repo/sacf/include/pybind11/include','-c',root+'/'+SRC[i],'-o',out],stdout=subprocess.PIPE,stderr=subprocess.STDOUT).returncode==0
BASE='/tmp/mut/base'; os.makedirs(BASE,exist_ok=True)
for i in range(4): assert comp('/repo',i,BASE+'/%d.o'%i)
def one(m):
    w=tempfile.mkdtemp(prefix='mu-',dir='/tmp/mut')
    try:
        shutil.copytree('/repo/sacf',w+'/sacf',ignore=shutil.ignore_patterns('*.so','__pycache__','pybind11'))
        shutil.copytree('/repo/tests',w+'/tests')
        p=w+'/'+m['file']; L=open(p).read().split('\n'); assert L[m['line']]==m['old']; L[m['line']]=m['new']; open(p,'w').write('\n'.join(L))
        o=[BASE+'/%d.o'%i for i in range(4)]
        for i in DEP[m['file']]:
            o[i]=w+'/%d.o'%i
            if not comp(w,i,o[i]): return 'nobuild'
        for mod,a,b in (('correlator',0,1),('datastructure',2,3)):
            # correlator bindings include DataStructure.cpp, so DataStructure.o is not linked there
            if subprocess.run(['g++','-shared',o[a],o[b],'-o',w+'/sacf/'+mod+build.ext_suffix()],stdout=subprocess.PIPE,stderr=subprocess.STDOUT).returncode: return 'nobuild'
        try:
            r=subprocess.run('ulimit -v 6000000; exec /opt/venv-pypy/bin/python -m pytest -q -x -p no:cacheprovider tests',shell=True,cwd=w,env=dict(os.environ,PYTHONPATH=w,PYTHONDONTWRITEBYTECODE='1'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=40)
        except subprocess.TimeoutExpired:
            return 'killed'
        return 'alive' if r.returncode==0 and '55 passed' in r.stdout else 'killed'
    finally:
        shutil.rmtree(w,ignore_errors=True)
n={}
alive=[]
with ThreadPoolExecutor(4 if len(sys.argv)<2 else int(sys.argv[1])) as ex:
    for m,r in zip(muts,ex.map(one,muts)):
        n[r]=n.get(r,0)+1
        if r=='alive': alive.append(m); json.dump(alive,open('/tmp/mut/alive.json','w'),indent=0)
        if sum(n.values())%50==0: print(n,flush=True)
print(n)
