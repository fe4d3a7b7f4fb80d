import subprocess,sys,os,shutil,tempfile
def sh(*a,**k): return subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
for f in sys.argv[1:]:
    w=tempfile.mkdtemp(prefix='rb-'); r=w+'/r'
    sh('git','clone','-q','/repo',r)
    done=False
    for base in ('95c0363','af5bd90','893e4c1','b9b5ea8','HEAD'):
        sh('git','-C',r,'checkout','-q','-f',base)
        if sh('git','-C',r,'apply',f).returncode: continue
        sh('git','-C',r,'-c','user.name=a','-c','user.email=a@b','commit','-qam','x')
        c=sh('git','-C',r,'rev-parse','HEAD').stdout.strip()
        sh('git','-C',r,'checkout','-q','-f','origin/HEAD')
        o=sh('git','-C',r,'-c','user.name=a','-c','user.email=a@b','cherry-pick','-n',c)
        if o.returncode: print('CONFLICT',f,sh('git','-C',r,'diff').stdout[:1500]); break
        d=sh('git','-C',r,'diff','HEAD').stdout
        open(f,'w').write(d); done=True; break
    print('ok' if done else 'FAIL',f)
    shutil.rmtree(w)
