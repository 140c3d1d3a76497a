import sys,subprocess
# usage: apply.py ROOT batchfile
root,batch=sys.argv[1:3]
ns={}
exec(open(batch).read(),ns)
for f,edits in ns['EDITS'].items():
    p=root+'/'+f
    s=open(p,newline='').read().replace('\r\n','\n')
    for a,b in edits:
        a,b=a.strip('\n'),b.strip('\n')
        if s.count(a)<1: print('NOT FOUND',f,a[:80]); continue
        s=s.replace(a,b,1)
    open(p,'w',newline='').write(s.replace('\n','\r\n'))
