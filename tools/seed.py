#!/usr/bin/env python3
"""seed.py ID : builds and verifies a planted bug described in tools/seeds/ID.py-like dict file.
usage: seed.py new ID   (reads /verif/tools/seeds/ID/{spec.json,demo_test.go})
spec.json: {property, needs, what_it_breaks, pkg, edits: [[file, old, new]...]}
"""
import sys, os, json, shutil, subprocess, tempfile, re
V="/verif"
DEMO='''#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod TMPDIR="$tmp"
printf '{"Replace":{"%%s":"%%s"}}' "$repo/%(pkg)s/zz_seed_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -run '^TestSeedDemo$' ./%(pkg)s
'''
def run(cmd, **kw):
    return subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def main():
    sid=sys.argv[1]; opts=sys.argv[2:]
    d=os.path.join(V,"seeded",sid); sp=json.loads(open(os.path.join(d,"meta.json")).read(), strict=False)
    edits=sp.get("edits")
    if edits:
        t=tempfile.mkdtemp(prefix="seed"); r=os.path.join(t,"repo"); shutil.copytree("/repo",r,symlinks=True)
        for f,o,n in edits:
            p=os.path.join(r,f); s=open(p).read()
            if s.count(o)<1: print("NO MATCH",f,o); return 1
            open(p,"w").write(s.replace(o,n,1))
        open(os.path.join(d,"patch.diff"),"w").write(run(["git","-C",r,"diff"]).stdout)
        shutil.rmtree(t)
        if not os.path.exists(os.path.join(d,"demo.sh")):
            open(os.path.join(d,"demo.sh"),"w").write(DEMO%{"pkg":sp.get("pkg",".")}); os.chmod(os.path.join(d,"demo.sh"),0o755)
        sp.pop("edits"); sp.pop("pkg",None); json.dump(sp,open(os.path.join(d,"meta.json"),"w"),indent=1)
    # verify in a scratch copy
    t=tempfile.mkdtemp(prefix="seed"); r=os.path.join(t,"repo"); shutil.copytree("/repo",r,symlinks=True)
    env=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOVC_REPO=r)
    try:
        run(["git","-C",r,"checkout","--","."])
        o=run(["bash",os.path.join(d,"demo.sh")],cwd=r,env=env)
        if o.returncode!=0: print("DEMO FAILS ON CLEAN\n",o.stdout[-1500:]); return 1
        a=run(["git","-C",r,"apply",os.path.join(d,"patch.diff")])
        if a.returncode!=0: print("APPLY",a.stdout); return 1
        base=run(["git","-C",r,"show","28f81fb:"+"id.go"]) # reachable
        for f in run(["git","-C",r,"diff","--name-only"]).stdout.split():
            orig=run(["git","-C",r,"show","28f81fb:"+f]).stdout.splitlines()
            rem=[l[1:] for l in run(["git","-C",r,"diff",f]).stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
            print(f,"removed",len(rem),"not original:",[l for l in rem if l not in orig])
        b=run(["go","build","./..."],cwd=r,env=env)
        if b.returncode: print("BUILD",b.stdout[-800:]); return 1
        o=run(["go","test","-json","-vet=off","-count=1","-timeout","10m","./..."],cwd=r,env=env)
        passed=set()
        for l in o.stdout.splitlines():
            try: e=json.loads(l)
            except Exception: continue
            if e.get("Action")=="pass" and e.get("Test"): passed.add(e["Package"]+"/"+e["Test"])
        bl=json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss=[x for x in bl if x not in passed]
        print("stable tests missing:",miss[:5])
        o=run(["bash",os.path.join(d,"demo.sh")],cwd=r,env=env)
        print("demo with patch:",o.returncode, "" if o.returncode else "NOT DETECTED BY DEMO")
        if "-nocheck" not in opts:
            c=run([os.path.join(V,"check.py"),sp["property"]],env=env)
            print("\n".join(c.stdout.splitlines()[-4:])[:1500]); print("CHECK exit",c.returncode,sid)
    finally:
        shutil.rmtree(t)
main()
