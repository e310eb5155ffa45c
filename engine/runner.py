"""Common driver: one property check = one rule module rules/<id>.py with run(ctx)."""
import importlib.util, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import facts
from facts import AnalysisBroken
import absint

KNOWN = os.path.join(VERIF, "known_findings.txt")

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viol = {}            # key -> (file, line, msg)
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.explanation = ""
        self.fnset = set()
        self._prog = None
    @property
    def prog(self):
        if self._prog is None: self._prog = absint.Program()
        return self._prog
    @property
    def thorough(self): return self.tier == "thorough"
    def violation(self, key, file, line, msg):
        """key identifies the construct without line numbers"""
        if key not in self.viol: self.viol[key] = (file, line, msg)
    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n
    def floor(self, name, n):
        """a rule which matches fewer constructs than confirmed by hand is broken"""
        if self.counts.get(name, 0) < n:
            raise AnalysisBroken("%s: only %d instance(s) of '%s', expected at least %d" % (self.pid, self.counts.get(name, 0), name, n))
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    def assume(self, s): self.assumptions.append(s)
    def used(self, eng):
        self.fnset |= eng.visited_fns
        self.count("abstract steps", eng.steps)
        self.count("call sites evaluated", eng.call_sites)
        self.count("abstract exit states", eng.paths)

def pmap(fn, items, procs=None):
    """run fn over items in forked workers; fn must return picklable values"""
    import multiprocessing as mp
    items = list(items)
    n = min(procs or os.cpu_count() or 4, len(items)) or 1
    if n == 1: return [fn(x) for x in items]
    global _pfn
    _pfn = fn
    with mp.get_context("fork").Pool(n) as pool:
        return pool.map(_pcall, items, chunksize=max(1, len(items) // (n * 8)))

_pfn = None
def _pcall(x):
    return _pfn(x)

def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % pid):
                rest = ln.split(" ", 2)[2]
                k, _, what = rest.partition(" :: ")
                out[k.replace("key=", "", 1)] = what
    return out

def load(pid):
    path = os.path.join(VERIF, "rules", pid.lower() + ".py")
    spec = importlib.util.spec_from_file_location("rule_" + pid, path)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(VERIF, "rules"))
    spec.loader.exec_module(m)
    return m

def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        rule = load(pid)
        rule.run(ctx)
    except (AnalysisBroken, absint.Limit) as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        if not ctx.viol: return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 4
    kn = known(pid)
    new = {k: v for k, v in ctx.viol.items() if k not in kn}
    old = {k: v for k, v in ctx.viol.items() if k in kn}
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rep = os.path.join(evdir, "%s.report.txt" % pid)
    with open(rep, "w") as fp:
        for k, (f, l, m) in sorted(new.items()):
            fp.write("%s:%s: [%s] %s: %s\n" % (f, l, pid, k, m))
    for k, (f, l, m) in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s (%s:%s) %s" % (pid, k, f, l, kn[k] or m))
    cov = {"explanation": ctx.explanation, "functions_analysed": len(ctx.fnset)}
    cov.update({k.replace(" ", "_"): v for k, v in ctx.counts.items()})
    if ctx.fnset: cov["functions"] = sorted("%s:%s" % x for x in ctx.fnset)[:400]
    if ctx.samples: cov["samples"] = ctx.samples
    cov["known_findings"] = sorted(old)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(evdir, "%s.json" % pid), "w") as fp:
        json.dump(ev, fp, indent=1, sort_keys=True)
        fp.write("\n")
    if new:
        for k, (f, l, m) in sorted(new.items())[:12]:
            print("%s:%s: %s: %s" % (f, l, k, m))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("OK property=%s %s" % (pid, " ".join("%s=%s" % (k.replace(" ", "_"), v) for k, v in sorted(ctx.counts.items()))))
    return 0

if __name__ == "__main__":
    sys.exit(main(sys.argv))
