#!/usr/bin/env python3
"""tools/mutate.py CHECKS FILE OLD NEW [N]: run checks against a scratch copy of /repo with one textual change (N-th occurrence)"""
import os, shutil, subprocess, sys, tempfile
checks, f, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix="mut")
r = os.path.join(d, "repo")
subprocess.check_call(["rsync", "-a", "--exclude", "_build", "--exclude", ".git", "/repo/", r]) if shutil.which("rsync") else \
    shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("_build", ".git"), symlinks=True)
p = os.path.join(r, f)
s = open(p).read()
old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
parts = s.split(old)
assert len(parts) > 1, "pattern not found"
if n >= 0: s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
else: s = new.join(parts)
open(p, "w").write(s)
e = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=os.path.join(d, "b"))
os.mkdir(e["VERIF_BUILD"])
os.symlink("/verif/build/extract", os.path.join(e["VERIF_BUILD"], "extract"))
e["VERIF_EVIDENCE"] = os.path.join(d, "ev")
os.mkdir(e["VERIF_EVIDENCE"])
for c in checks.split(","):
    x = subprocess.run(["/verif/check", c], env=e, capture_output=True, text=True)
    print(c, "rc=%d" % x.returncode, (x.stdout + x.stderr).strip().split("\n")[0][:400])
shutil.rmtree(d)
