#!/usr/bin/env python3
# mkseed.py SPEC.py: builds /verif/seeded/<id>/ from a spec and confirms it in a scratch copy:
# the patched tree builds and passes the stable tests, the demo passes without and fails with the patch.
import sys,os,subprocess,json,shutil,tempfile
spec={}
exec(open(sys.argv[1]).read(),spec)
ID=spec["id"]; out="/verif/seeded/"+ID
w=tempfile.mkdtemp(prefix="seed-",dir="/tmp"); repo=w+"/repo"
try:
    subprocess.check_call(["cp","-a","/repo",repo])
    for f,old,new in spec["edits"]:
        p=repo+"/"+f; s=open(p).read()
        assert s.count(old)==1,(f,s.count(old),old)
        open(p,"w").write(s.replace(old,new))
    fl=sorted({f for f,_,_ in spec["edits"]})
    r=subprocess.run(["gofmt","-l"]+fl,cwd=repo,capture_output=True,text=True).stdout
    if r: print("gofmt:",r)
    diff=subprocess.check_output(["git","diff"],cwd=repo,text=True)
    # lines must be the base's own
    base=subprocess.check_output(["git","rev-list","--max-parents=0","HEAD"],cwd=repo,text=True).strip()
    if os.path.isdir(out): shutil.rmtree(out)
    os.makedirs(out)
    open(out+"/patch.diff","w").write(diff)
    pkg=spec["pkg"]
    open(out+"/demo_test.go","w").write(spec["demo"])
    open(out+"/demo.sh","w").write('''#!/bin/bash
# Runs demo_test.go inside ./%s of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off TMPDIR=$tmp
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$tmp/overlay.json"
timeout 200 go test -count=1 -vet=off -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%s
'''%(pkg,pkg,pkg))
    os.chmod(out+"/demo.sh",0o755)
    json.dump(dict(property=spec["prop"],needs=spec["needs"],what_it_breaks=spec["breaks"]),open(out+"/meta.json","w"),indent=1)
    env=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=readonly",GOWORK="off")
    def sh(c,cwd):
        return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,env=env)
    b=sh("go build ./... && go vet ./"+pkg+" >/dev/null 2>&1; go build ./...",repo); 
    if b.returncode: print("BUILD FAILS",b.stderr); sys.exit(1)
    t=sh("go test -json -vet=off -count=1 ./... > %s/log; python3 /opt/vp/results.py %s/res.json gojson:%s/log"%(w,w,w),repo)
    res=json.load(open(w+"/res.json")); bl=json.load(open("/opt/vp/BASELINE.json"))
    def names(d): 
        x=d.get("passed") or d.get("stable") or d.get("pass") or d
        return set(x) if not isinstance(x,dict) else {k for k,v in x.items() if v in("pass","passed",True)}
    miss=names(bl)-names(res)
    if miss: print("TESTS FAIL",sorted(miss)[:5]); sys.exit(1)
    d1=sh("bash %s/demo.sh"%out,repo)
    sh("git checkout -- .",repo)
    d0=sh("bash %s/demo.sh"%out,repo)
    print(ID,"demo patched rc",d1.returncode,"clean rc",d0.returncode)
    if d1.returncode==0 or d0.returncode!=0 or "[build failed]" in d1.stdout+d1.stderr:
        print(d1.stdout[-1500:],d1.stderr[-500:],"-----",d0.stdout[-1500:],d0.stderr[-500:]); sys.exit(1)
    print("OK",ID)
finally:
    shutil.rmtree(w)
