import subprocess,sys
def sub(f,a,b,n=1):
    s=open(f).read(); assert s.count(a)>=1,(f,a); s=s.replace(a,b,n); open(f,'w').write(s)
def commit(msg): subprocess.run(['git','commit','-qam',msg],check=True)
