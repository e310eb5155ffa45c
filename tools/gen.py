#!/usr/bin/env python3
"""tools/gen.py: write properties.jsonl and MANIFEST.json from tools/props/*.py (each defines P, a list of dicts)."""
import glob, json, os, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
allp = []
for f in sorted(glob.glob(os.path.join(V, "tools/props/*.py"))):
    allp += runpy.run_path(f)["P"]
allp.sort(key=lambda p: p["id"])
assert len({p["id"] for p in allp}) == len(allp)
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as fp:
    for p in allp:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("observe", []), "hook_needed": None}}
        if p.get("state"): d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        for fn in p["files"]: assert os.path.exists("/repo/" + fn), fn
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fp.write(json.dumps(d) + "\n")
        if p.get("na"): na.append({"property": p["id"], "reason": p["na"]})
        else:
            assert os.path.exists(os.path.join(V, "rules", p["id"].lower() + ".py")), p["id"]
            checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"],
                           "thorough_cmd": "./check %s thorough" % p["id"], "technique": "static analysis: " + p["technique"],
                           "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "make -s -C extract OUT=../build && python3 engine/facts.py", "checks": checks, "not_applicable": na,
     "notes": "Every check reads /repo's current C sources through the clang front end (extract/), and decides by dataflow over the extracted control-flow graphs; nothing of /repo is run."}
with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1); fp.write("\n")
# DESIGN.md
def one(t): return " ".join(t.split())
o = [open(os.path.join(V, "tools/design_head.md")).read().rstrip(), "", "## The properties and how each is decided", ""]
for p in allp:
    if p.get("na"): continue
    o += ["### %s %s" % (p["id"], p["title"]), "", "*Decided by:* " + one(p["technique"]) + ".", "",
          "*Analysed:* " + one(p["text"]) + ". Anchors: " + "; ".join("%s (%s)" % x for x in p["mech"]) + ".", "",
          "*Why not by tests:* " + one(p["why"]), "", "*Left open:* " + one(p["note"]), ""]
    if p.get("design"): o += [p["design"].strip(), ""]
o += ["## Not applicable to static analysis", ""] + ["* **%s %s** – %s" % (p["id"], p["title"], one(p["na"])) for p in allp if p.get("na")]
o += ["", "## Defects found and repaired", "", "Each is a `fix:` commit in /repo, shown with a concrete input before it was made; known_findings.txt lists them too.", ""]
for ln in open(os.path.join(V, "known_findings.txt")):
    if ln.startswith("fixed:"):
        pr, c, w = ln[7:].strip().split(" ", 2)
        o.append("* %s, %s: %s" % (pr.replace("property=", ""), c, w))
o += ["", "No finding is recorded unrepaired." if not any(l.startswith("known:") for l in open(os.path.join(V, "known_findings.txt"))) else "Recorded, not repaired: the `known:` lines of known_findings.txt.", ""]
o += [open(os.path.join(V, "tools/design_alarms.md")).read().rstrip(), "", "## Planted bugs and the checks which catch them", "",
      "Verified with `tools/plant.py` (builds, the 505 tests pass, the demonstration fails only with the bug); the last column names checks which were run on it and reported it: its own property's, and others tried at the time (`tools/matrix.py` would run all).", "",
      "| bug | property | needs | caught by |", "|---|---|---|---|"]
cf = os.path.join(V, "tools/caught.json")
caught = json.load(open(cf)) if os.path.exists(cf) else {}
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    i = f.split("/")[-2]; d = json.load(open(f))
    o.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), ", ".join(caught.get(i, ["(not run)"])) or "none"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
