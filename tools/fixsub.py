import subprocess
def sub(path, pairs, msg):
    p='/repo/crates/'+path
    s=open(p).read()
    for a,b in pairs:
        assert s.count(a)==1,(path,a,s.count(a))
        s=s.replace(a,b)
    open(p,'w').write(s)
    subprocess.run(['git','-C','/repo','commit','-qam',msg],check=True)
    print(subprocess.run(['git','-C','/repo','log','-1','--format=%h %s'],capture_output=True,text=True).stdout)
