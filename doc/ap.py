import sys,subprocess
def rep(p,*pairs):
    s=open(p).read()
    for o,n in pairs:
        assert s.count(o)==1,(s.count(o),o)
        s=s.replace(o,n)
    open(p,'w').write(s)
def commit(msg):
    r=subprocess.run('bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1',shell=True,capture_output=True,text=True,cwd='/repo').stdout
    print(r.strip())
    assert '406 passed, 0 failed' in r
    subprocess.run(['git','-C','/repo','commit','-qam',msg],check=True)
    print(subprocess.run('git -C /repo log --oneline | head -1',shell=True,capture_output=True,text=True).stdout)
