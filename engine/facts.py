"""Extract program facts from /repo's current working tree (clang CFG + AST)."""
import glob, hashlib, json, os, pickle, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

class AnalysisBroken(Exception):
    pass

UNIT_GLOBS = [
    "milter/core/*.c", "milter/client/*.c", "milter/server/*.c",
    "milter/manager/*.c", "libmilter/*.c", "module/configuration/ruby/*.c",
    "src/*.c", "tool/*.c", "binding/ruby/ext/*/*.c",
]
MIN_UNITS = 85

LOGDOM = {"milter/core": "milter-core", "milter/client": "milter-client",
          "milter/server": "milter-server", "milter/manager": "milter-manager"}

def ensure_extractor():
    exe = os.path.join(BUILD, "extract")
    src = os.path.join(VERIF, "extract", "extract.cpp")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["make", "-s", "-C", os.path.join(VERIF, "extract"), "OUT=" + BUILD, "-B"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(exe):
        raise AnalysisBroken("cannot build the extractor:\n" + r.stdout)
    return exe

def units():
    out = []
    for g in UNIT_GLOBS:
        for f in sorted(glob.glob(os.path.join(REPO, g))):
            b = os.path.basename(f)
            if b.endswith("-marshalers.c") or b.endswith("-enum-types.c"):
                continue
            out.append(f)
    return out

def headers():
    out = []
    for d in ("milter", "libmilter", "module", "binding", "src", "tool"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                if f.endswith(".h") or f.endswith(".h.in"):
                    out.append(os.path.join(root, f))
    out.append(os.path.join(REPO, "build", "enum-types-template.h"))
    return sorted(out)

def tree_hash(us):
    h = hashlib.sha256()
    for f in us + headers() + [os.path.join(VERIF, "extract", "extract.cpp"),
                               os.path.join(VERIF, "engine", "facts.py"),
                               os.path.join(VERIF, "engine", "prelude.h")]:
        h.update(f.encode()); h.update(b"\0")
        try:
            with open(f, "rb") as fp:
                h.update(fp.read())
        except OSError:
            pass
        h.update(b"\0")
    return h.hexdigest()

def gen_headers(gen):
    """The headers the build generates: enum types and version."""
    tmpl = os.path.join(REPO, "build", "enum-types-template.h")
    for mod, name in (("core", "milter-enum-types"), ("client", "milter-client-enum-types"),
                      ("server", "milter-server-enum-types"), ("manager", "milter-manager-enum-types")):
        d = os.path.join(REPO, "milter", mod)
        hs = [os.path.basename(x) for x in sorted(glob.glob(os.path.join(d, "*.h")))
              if not x.endswith("-enum-types.h") and not x.endswith("-version.h")]
        r = subprocess.run(["glib-mkenums", "--template", tmpl] + hs, cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise AnalysisBroken("glib-mkenums failed for %s: %s" % (mod, r.stderr.decode()))
        o = os.path.join(gen, "milter", mod)
        os.makedirs(o, exist_ok=True)
        with open(os.path.join(o, name + ".h"), "wb") as fp:
            fp.write(r.stdout)
    v = open(os.path.join(REPO, "milter/core/milter-version.h.in")).read()
    v = v.replace("@MILTER_MANAGER_VERSION@", "2.3.2")
    v = v.replace("@MILTER_MANAGER_VERSION_MAJOR@", "2").replace("@MILTER_MANAGER_VERSION_MINOR@", "3")
    v = v.replace("@MILTER_MANAGER_VERSION_MICRO@", "2")
    with open(os.path.join(gen, "milter/core/milter-version.h"), "w") as fp:
        fp.write(v)
    shutil.copy(os.path.join(VERIF, "engine/stub/config.h"), gen)
    os.makedirs(os.path.join(gen, "sub", "a", "b", "c"), exist_ok=True)   # for #include "../config.h"

def flags(gen, unit=None):
    fl = ["-x", "c", "-std=gnu11", "-w", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-DG_DISABLE_CAST_CHECKS",
          "-I" + gen, "-I" + os.path.join(gen, "sub"), "-I" + os.path.join(gen, "sub/a/b/c"), "-I" + REPO, "-include", os.path.join(VERIF, "engine/prelude.h"),
          "-I/usr/include/glib-2.0", "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include",
          "-pthread", '-DLOCALEDIR="/usr/share/locale"', '-DPREFIX="/usr/local"',
          '-DCONFIG_DIR="/etc/milter-manager"', '-DCONFIG_FILE_NAME="milter-manager.conf"',
          '-DCUSTOM_CONFIG_FILE_NAME="milter-manager.custom.conf"',
          '-DRUBY_BINDINGS_LIB_DIR="/x"', '-DRUBY_BINDINGS_EXT_DIR="/x"', '-DCONFIGURATION_MODULE_DIR="/x"',
          '-DMILTER_MANAGER_PACKAGE_PLATFORM="platform"', '-DMILTER_MANAGER_PACKAGE_OPTIONS="options"',
          '-DMILTER_MANAGER_DEFAULT_EFFECTIVE_USER="user"', '-DMILTER_MANAGER_DEFAULT_EFFECTIVE_GROUP="group"',
          '-DMILTER_MANAGER_DEFAULT_SOCKET_GROUP="socket-group"', '-DMILTER_MANAGER_DEFAULT_CONNECTION_SPEC="spec"',
          '-DMILTER_MANAGER_DEFAULT_PID_FILE="pid-file"', '-DEV_COMPAT3=0',
          '-DMILTER_LOG_DOMAIN="milter"']
    for m in ("core", "client", "server", "manager"):
        fl.append("-I" + os.path.join(gen, "milter", m))
    for m in ("core", "client", "server", "manager"):
        fl.append("-I" + os.path.join(REPO, "binding/ruby/ext", m))
    fl += ["-I/usr/include/ruby-3.2.0", "-I/usr/include/x86_64-linux-gnu/ruby-3.2.0",
           "-I/usr/lib/x86_64-linux-gnu/ruby/vendor_ruby/3.2.0"]
    fl += ["-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
    return fl

def extract(verbose=False):
    us = units()
    if len(us) < MIN_UNITS:
        raise AnalysisBroken("only %d C units found under %s (expected at least %d)" % (len(us), REPO, MIN_UNITS))
    key = tree_hash(us)
    cache = os.path.join(BUILD, "facts-%s.pickle" % key[:24])
    if os.path.exists(cache):
        try:
            return pickle.load(open(cache, "rb"))
        except Exception:
            pass
    exe = ensure_extractor()
    tmp = tempfile.mkdtemp(prefix="facts-", dir=BUILD)
    try:
        gen = os.path.join(tmp, "gen")
        os.makedirs(gen)
        gen_headers(gen)
        fl = flags(gen)
        def one(iu):
            i, u = iu
            out = os.path.join(tmp, "u%d.json" % i)
            r = subprocess.run([exe, REPO, out, u, "--"] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode or not os.path.exists(out):
                return (u, None, r.stdout)
            return (u, out, r.stdout)
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            res = list(ex.map(one, enumerate(us)))
        bad = [(u, m) for u, o, m in res if o is None]
        if bad:
            raise AnalysisBroken("cannot parse %d unit(s):\n%s" % (len(bad), "\n".join(u + "\n" + m[-1500:] for u, m in bad[:3])))
        data = {"fns": {}, "enums": {}, "records": {}, "globals": {}, "units": [os.path.relpath(u, REPO) for u in us]}
        for u, o, _ in res:
            rel = os.path.relpath(u, REPO)
            for ln in open(o, encoding="utf-8", errors="replace"):
                d = json.loads(ln)
                k = d["kind"]
                if k == "fn":
                    if d["file"].endswith(".h"):
                        data["fns"].setdefault((d["file"], d["name"]), d)
                    else:
                        data["fns"][(d["file"], d["name"])] = d
                elif k == "enum":
                    data["enums"][(d["file"], d["name"], len(d["v"]))] = d
                elif k == "record":
                    data["records"][(d["file"], d["name"])] = d
                elif k == "global":
                    data["globals"].setdefault((d["file"], d["name"]), d)
        for f in glob.glob(os.path.join(BUILD, "facts-*.pickle")):
            try:
                if len(glob.glob(os.path.join(BUILD, "facts-*.pickle"))) > 6: os.unlink(f)
            except OSError: pass
        t = cache + ".tmp%d" % os.getpid()
        with open(t, "wb") as fp:
            pickle.dump(data, fp, protocol=4)
        os.rename(t, cache)
        return data
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    d = extract()
    print(len(d["units"]), "units", len(d["fns"]), "functions", len(d["enums"]), "enums",
          len(d["records"]), "records", len(d["globals"]), "globals")
