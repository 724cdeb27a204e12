#!/usr/bin/env python3
# mut.py PROPS < edits: applies one edit at a time to /repo, runs the checks and
# undoes it. Lines: file ||| old ||| new
import sys,subprocess
R="/repo"
props=sys.argv[1].split(",")
for l in sys.stdin:
    if not l.strip(): continue
    f,o,n=[x.strip("\n") for x in l.split("|||")]
    f=f.strip();o=o.strip().replace("\\n","\n").replace("\\t","\t");n=n.strip().replace("\\n","\n").replace("\\t","\t")
    s=open(R+"/"+f).read()
    if s.count(o)<1:
        print("NOT FOUND",o);continue
    open(R+"/"+f,"w").write(s.replace(o,n,1))
    try:
        b=subprocess.run("cd /repo && go build ./...",shell=True,capture_output=True,text=True)
        if b.returncode: print("NOBUILD",l.strip(),b.stderr[:200]);continue
        for p in props:
            r=subprocess.run(["bash","/verif/check.sh",p,"quick"],capture_output=True,text=True)
            v=[x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            w=[x for x in r.stdout.splitlines() if "no-failing" in x]
            print(p,"exit",r.returncode,"violations",len(v),"noinput",len(w),"::",l.strip()[:110],"::",(v[0][:120] if v else r.stdout.splitlines()[-1][:150]),flush=True)
    finally:
        subprocess.run(["git","-C",R,"checkout","--","."])
