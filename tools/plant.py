"""Planting bugs: plant() writes seeded/<id>/, verify() confirms it against /repo (build, tests, demo, checks) and restores /repo."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def plant(id, prop, edits, needs, breaks, demo, helper="e2e.py"):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout, "dirty /repo"
    try:
        for f, old, new, *n in edits:
            p = "/repo/" + f; s = open(p).read()
            n = n[0] if n else 0
            parts = s.split(old)
            assert len(parts) > n + 1, "pattern not found in " + f
            open(p, "w").write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
        diff = sh("git -C /repo diff").stdout
    finally:
        sh("git -C /repo checkout -- .")
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if helper == "e2e.py":
        open(d + "/demo.sh", "w").write('#!/bin/sh\nexport DEMO_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n')
        open(d + "/demo.py", "w").write(demo)
        shutil.copy(V + "/tools/e2e.py", d)
    else:   # C program: demo is the source, helper the command after compilation
        open(d + "/demo.c", "w").write(demo)
        open(d + "/demo.sh", "w").write(helper)
    os.chmod(d + "/demo.sh", 0o755)
def verify(id, checks=None, tests=True):
    d = os.path.join(V, "seeded", id)
    res = []
    r = sh("bash %s/demo.sh" % d, cwd="/repo"); res.append("demo-clean=%d" % r.returncode)
    if r.returncode: print((r.stdout + r.stderr)[-1500:]); return
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: print(a.stderr); return
    try:
        b = sh("bash /opt/vp/build.sh"); res.append("build=%d" % b.returncode)
        if b.returncode: print(b.stderr[-800:])
        r = sh("bash %s/demo.sh" % d, cwd="/repo"); res.append("demo-bug=%d" % r.returncode)
        print((r.stdout + r.stderr)[-600:])
        if tests:
            t = sh("bash /opt/vp/test.sh /tmp/seedout.json | tail -1"); res.append(t.stdout.strip())
        cs = checks or sorted(c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"])
        e = dict(os.environ, VERIF_EVIDENCE="/tmp/seedev"); os.makedirs("/tmp/seedev", exist_ok=True)
        for c in cs:
            x = sh("%s/check %s" % (V, c), env=e)
            if x.returncode: res.append("%s=%d" % (c, x.returncode)); print(c, x.stdout.split("\n")[0][:300])
    finally:
        sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
    print(id, *res); sys.stdout.flush()
    with open("/tmp/seedlog", "a") as fp: fp.write(id + " " + " ".join(res) + "\n")
if __name__ == "__main__":
    for i in sys.argv[1:]: verify(i)
