#!/usr/bin/env python3
"""tools/matrix.py [IDS]: every check against every planted bug, in scratch copies of /repo; writes tools/caught.json (development only)."""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or [f.split("/")[-2] for f in sorted(glob.glob(V + "/seeded/*/meta.json"))]
checks = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
out = os.path.join(V, "tools/caught.json")
caught = json.load(open(out)) if os.path.exists(out) else {}
for i in ids:
    t = tempfile.mkdtemp(prefix="matrix-")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s/ && cd %s && git init -q && git apply %s/seeded/%s/patch.diff" % (t, t, V, i), shell=True, check=True)
        env = dict(os.environ, VERIF_REPO=t, VERIF_EVIDENCE=t + ".ev")
        subprocess.run(["python3", V + "/engine/facts.py"], env=env, capture_output=True)
        def one(c): return c, subprocess.run(["timeout", "800", V + "/check", c, "quick"], env=env, capture_output=True).returncode
        with ThreadPoolExecutor(3) as ex: r = dict(ex.map(one, checks))
    finally:
        shutil.rmtree(t, ignore_errors=True); shutil.rmtree(t + ".ev", ignore_errors=True)
    caught[i] = [c for c in checks if r[c] == 1]
    print(i, caught[i], {c: x for c, x in r.items() if x not in (0, 1)}, flush=True)
    json.dump(caught, open(out, "w"), indent=1, sort_keys=True)
