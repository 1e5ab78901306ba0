import re,sys,os
def rep(f,*pairs):
    s=open(f).read()
    for a,b in pairs:
        if s.count(a)<1: sys.exit("missing in %s: %s"%(f,a[:80]))
        s=s.replace(a,b)
    open(f,'w').write(s)
def func(f,start,new):
    """replace the function whose declaration starts with `start` (up to closing brace at column 0)"""
    s=open(f).read()
    i=s.find(start)
    if i<0: sys.exit("no func "+start)
    j=s.index("\n}\n",i)+3
    s=s[:i]+new.strip()+"\n"+s[j:]
    open(f,'w').write(s)
def imports(f,add=(),drop=()):
    s=open(f).read()
    i=s.index("import (")+8
    for a in add: s=s[:i]+'\n\t"%s"'%a+s[i:]
    for d in drop: s=s.replace('\t"%s"\n'%d,'',1)
    open(f,'w').write(s)
