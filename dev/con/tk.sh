cd /tmp/con; rm -rf /tmp/tk; mkdir /tmp/tk; cp -a /repo /tmp/tk/repo
python3 - <<'P'
import sys; sys.argv=['a']
src=open('a.py').read()
i=src.rindex('main(')
ns={}
exec(compile(src[:i].rstrip().rstrip(';') if 'if __name__' not in src else src[:i],'a.py','exec'),ns) 
P
