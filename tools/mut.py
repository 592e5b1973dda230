#!/usr/bin/env python3
"""mut.py PROP FILE OLD NEW : runs one check against a scratch copy of /repo with OLD replaced by NEW (first occurrence)."""
import sys, os, shutil, subprocess, tempfile
prop, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
r = os.path.join(d, "repo")
shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns(".git"))
p = os.path.join(r, f)
s = open(p).read()
if old not in s:
    print("NO MATCH"); sys.exit(2)
open(p, "w").write(s.replace(old, new, 1))
env = dict(os.environ, GOVC_REPO=r)
o = subprocess.run(["/verif/check.py", prop], env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print("\n".join(o.stdout.splitlines()[-8:])); print("exit", o.returncode)
shutil.rmtree(d)
