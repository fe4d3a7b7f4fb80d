import subprocess,os,sys,json,shutil,tempfile
def seed(id, prop, edits, demo, needs, breaks):
    """edits: list of (file, old, new)"""
    d='/verif/seeded/'+id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w=tempfile.mkdtemp(prefix='mk-')
    subprocess.run(['git','-C','/repo','worktree','prune'])
    r=w+'/repo'; subprocess.run(['git','clone','-q','/repo',r],check=True)
    for f,o,n in edits:
        p=r+'/'+f; s=open(p).read()
        assert s.count(o)==1,(id,f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    diff=subprocess.run(['git','-C',r,'diff'],stdout=subprocess.PIPE,text=True,check=True).stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.py','w').write(demo.lstrip('\n'))
    open(d+'/demo.sh','w').write('#!/bin/bash\n# run in the root of the repository, built in place\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv-pypy/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
C='sacf/correlator/Correlator.cpp'; D='sacf/datastructure/DataStructure.cpp'; P='sacf/sacf.py'; B='sacf/correlator/correlator_bindings.cpp'
DB='sacf/datastructure/datastructure_bindings.cpp'; CH='sacf/include/Correlator.h'; DH='sacf/include/DataStructure.h'
