import sys,subprocess,os
from importlib import import_module
a=import_module('a')
name,edits,checks=[c for c in a.cs if c[0]==sys.argv[1]][0]
subprocess.run('rm -rf /tmp/tk; mkdir -p /tmp/tk; cp -a /repo /tmp/tk/repo',shell=True)
for f,x,y in edits:
    p='/tmp/tk/repo/'+f; s=open(p).read()
    if x is None: s=y+s
    else: assert x in s; s=s.replace(x,y,1)
    open(p,'w').write(s)
