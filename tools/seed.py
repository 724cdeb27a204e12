#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a description and confirms it in a scratch copy.

usage: seed.py FILE.json ...   each {"id","property","needs","what_it_breaks","pkg","edits":[[file,old,new]],"test":go test source}
The change must apply, build, pass the repository's tests, and make the demonstration fail."""
import json,os,shutil,subprocess,sys,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO='''#!/bin/bash
# Fails when the property is broken. Runs a test of package %(pkg)s through an overlay.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$w/overlay.json"
cp "$d/demo_test.go.txt" "$w/demo_test.go"
sed -i "s#$d/demo_test.go.txt#$w/demo_test.go#" "$w/overlay.json"
timeout 250 go test -vet=off -count=1 -overlay "$w/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''
def sh(cmd,cwd,**k):
    return subprocess.run(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
ENV=". /opt/vp/env.sh; "
def one(f):
    d=json.load(open(f))
    w=tempfile.mkdtemp(prefix="seed")
    r=os.path.join(w,"repo")
    try:
        shutil.copytree("/repo",r,symlinks=True)
        sh("git checkout -q -- . && git clean -fdq",r)
        for file,old,new in d["edits"]:
            p=os.path.join(r,file); s=open(p).read()
            if s.count(old)!=1: print(d["id"],"edit matches",s.count(old),"times:",old[:60]); return False
            open(p,"w").write(s.replace(old,new))
        diff=sh("git diff",r).stdout
        demo=os.path.join(w,"demo"); os.makedirs(demo)
        open(os.path.join(demo,"demo.sh"),"w").write(DEMO%d)
        open(os.path.join(demo,"demo_test.go.txt"),"w").write(d["test"])
        b=sh(ENV+"go build ./... && go vet ./%s >/dev/null 2>&1; go build ./..."%d["pkg"],r)
        if b.returncode: print(d["id"],"does not build",b.stdout); return False
        t=sh(ENV+"go test -vet=off -count=1 ./...",r)
        if t.returncode: print(d["id"],"fails the tests",t.stdout[-1500:]); return False
        x=sh("bash %s/demo.sh"%demo,r)
        if x.returncode==0: print(d["id"],"demo passes with the change",x.stdout[-1500:]); return False
        if "demo_test.go" in x.stdout and ("undefined" in x.stdout or "syntax error" in x.stdout or "build failed" in x.stdout): print(d["id"],x.stdout); return False
        sh("git checkout -q -- .",r)
        y=sh("bash %s/demo.sh"%demo,r)
        if y.returncode: print(d["id"],"demo fails without the change",y.stdout[-2500:]); return False
        o=os.path.join(V,"seeded",d["id"]); os.makedirs(o,exist_ok=True)
        open(os.path.join(o,"patch.diff"),"w").write(diff)
        shutil.copy(os.path.join(demo,"demo.sh"),o); shutil.copy(os.path.join(demo,"demo_test.go.txt"),o)
        json.dump({k:d[k] for k in("property","needs","what_it_breaks")},open(os.path.join(o,"meta.json"),"w"),indent=1)
        print(d["id"],"ok"); return True
    finally:
        shutil.rmtree(w)
ok=True
for f in sys.argv[1:]:
    ok=one(f) and ok
sys.exit(0 if ok else 1)
