#!/usr/bin/env python3
"""tools/mutlist.py FILE.py: FILE defines M = [(expected rc, checks, file, old, new[, n])]; runs them in parallel on scratch copies"""
import os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
def one(m):
    exp, checks, f, old, new = m[:5]
    n = m[5] if len(m) > 5 else 0
    d = tempfile.mkdtemp(prefix="mut")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("_build", ".git"), symlinks=True)
        edits = [(f, old, new, n)] if isinstance(f, str) else f
        for f1, o1, n1, *k in edits:
            p = os.path.join(r, f1); s = open(p).read()
            parts = s.split(o1); k = k[0] if k else 0
            if len(parts) <= 1: return m, "PATTERN NOT FOUND", ""
            s = n1.join(parts) if k < 0 else o1.join(parts[:k + 1]) + n1 + o1.join(parts[k + 1:])
            open(p, "w").write(s)
        e = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=os.path.join(d, "b"), VERIF_EVIDENCE=os.path.join(d, "ev"))
        os.mkdir(e["VERIF_BUILD"]); os.mkdir(e["VERIF_EVIDENCE"])
        os.symlink("/verif/build/extract", os.path.join(e["VERIF_BUILD"], "extract"))
        rc, out = [], ""
        for c in checks.split(","):
            x = subprocess.run(["/verif/check", c], env=e, capture_output=True, text=True, timeout=300)
            rc.append(x.returncode)
            out += c + "=%d " % x.returncode + (x.stdout + x.stderr).strip().split("\n")[0][:int(os.environ.get("W", "230"))] + "\n"
        return m, rc, out
    finally: shutil.rmtree(d)
ms = runpy.run_path(sys.argv[1])["M"]
bad = 0
with ThreadPoolExecutor(4) as ex:
    for k, (m, rc, out) in enumerate(ex.map(one, ms)):
        ok = isinstance(rc, list) and (m[0] in rc if m[0] else not any(rc))
        bad += not ok
        print("%s #%d exp=%s %r" % ("ok " if ok else "BAD", k, m[0], (m[3] if isinstance(m[2], str) else m[2][0][1])[:60]), rc if not isinstance(rc, list) else "", "\n    " + out.strip() if out and (not ok or os.environ.get("V")) else "")
print(len(ms), "mutations,", bad, "unexpected")
