#!/usr/bin/env python3
"""tools/refactor.py [KIND...] [-c CHECKS]: rewrites all the sources in a scratch copy in a way which keeps their behaviour; every check has to stay quiet"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, zlib
from concurrent.futures import ThreadPoolExecutor
FN = re.compile(r'^((?:static |const |inline )*[A-Za-z_][\w ]*?[ \*]*)\n(\w+) \(([^;{}]*?)\)\n\{\n(.*?)^\}\n', re.M | re.S)
def match(s, i, o='{', c='}'):
    """index after the bracket matching the one at i, skipping strings, characters and comments"""
    d = 0; n = len(s)
    while i < n:
        x = s[i]
        if x in '"\'':
            j = i + 1
            while s[j] != x: j += 2 if s[j] == '\\' else 1
            i = j
        elif s.startswith('/*', i): i = s.index('*/', i) + 1
        elif x == o: d += 1
        elif x == c:
            d -= 1
            if d == 0: return i + 1
        i += 1
    return -1
def functions(s, g):
    """g(type, name, params, body) -> new text or None"""
    def sub(m):
        if '#' in m.group(4) and re.search(r'^#', m.group(4), re.M): return m.group(0)
        r = g(*m.groups())
        return m.group(0) if r is None else r
    return FN.sub(sub, s)
def args(params):
    if params.strip() in ('void', ''): return []
    r = []
    for x in params.split(','):
        m = re.match(r'.*?(\w+)\s*(\[\])?\s*$', x.strip(), re.S)
        if not m or '...' in x or '(' in x: return None
        r.append(m.group(1))
    return r
def wrap(s, part=None):
    def g(t, n, p, b):
        if part is not None and zlib.crc32(n.encode()) % 5 != part: return None
        a = args(p)
        if a is None or n == 'main' or '_init' in n or 'get_type' in n or 'G_GNUC' in p or 'va_list' in p: return None
        st = t if t.startswith('static') else 'static ' + t
        ret = '' if t.replace('static', '').strip() == 'void' else 'return '
        proto = "%s\n%s (%s);\n" % (t, n, p) if t.startswith('static') else ''
        return "%s%s\n%s_inner (%s)\n{\n%s}\n\n%s\n%s (%s)\n{\n    %s%s_inner(%s);\n}\n" % (proto, st, n, p, b, t, n, p, ret, n, ', '.join(a))
    return functions(s, g)
def ifelse(s):
    out, i = '', 0
    for m in iter(lambda: re.compile(r'(?<![\w#] )\bif \(').search(s, i), None):
        a = m.end() - 1; b = match(s, a, '(', ')')
        if s[m.start() - 5:m.start()] == 'else ' or not s.startswith(' {\n', b) or '\\\n' in s[m.start():b + 200].split('{')[0]: out += s[i:m.end()]; i = m.end(); continue
        c = match(s, b + 1)
        mm = re.match(r' else \{\n', s[c:])
        if not mm or '\n#' in s[b:c] or '\\\n' in s[b:c]: out += s[i:m.end()]; i = m.end(); continue
        e0 = c + 6; e = match(s, e0)
        if '\n#' in s[e0:e] or '\\\n' in s[e0:e]: out += s[i:m.end()]; i = m.end(); continue
        out += s[i:m.start()] + "if (!" + s[a:b] + ") " + ifelse(s[e0:e]) + " else " + ifelse(s[b + 1:c]); i = e
    return out + s[i:]
def whiles(s):
    out, i = '', 0
    for m in iter(lambda: re.compile(r'^( +)for \(', re.M).search(s, i), None):
        a = m.end() - 1; b = match(s, a, '(', ')')
        parts = s[a + 1:b - 1].split(';')
        if len(parts) != 3 or not s.startswith(' {\n', b): out += s[i:m.end()]; i = m.end(); continue
        c = match(s, b + 1); body = s[b + 1:c]
        if 'continue' in body or '\n#' in body or '\\\n' in body: out += s[i:m.end()]; i = m.end(); continue
        ini = parts[0].strip(); step = parts[2].strip()
        step = ''.join(x.strip() + '; ' for x in re.split(r',(?![^(]*\))', step)) if step else ''
        out += s[i:m.start()] + m.group(1) + (ini + ';\n' + m.group(1) if ini else '') + 'while (' + (parts[1].strip() or '1') + ') ' + whiles(body[:-1]) + step + '}'; i = c
    return out + s[i:]
def returns(s):
    def g(t, n, p, b):
        r = t.replace('static ', '').replace('inline ', '').strip()
        if r == 'void': return None
        b2 = re.sub(r'^( +)return ([^;]*?);$', lambda m: m.group(0) if '\\\n' in m.group(0) else '%s{ %s returned_ = %s; return returned_; }' % (m.group(1), r, m.group(2)), b, flags=re.M)
        return "%s\n%s (%s)\n{\n%s}\n" % (t, n, p, b2) if b2 != b else None
    return functions(s, g)
def nested(s):
    """if (a && b) { } without else -> two ifs"""
    out, i = '', 0
    for m in iter(lambda: re.compile(r'^( +)if \(', re.M).search(s, i), None):
        a = m.end() - 1; b = match(s, a, '(', ')'); cond = s[a + 1:b - 1]
        depth, cut, bad = 0, None, False
        for k, x in enumerate(cond):
            if x in '([': depth += 1
            if x in ')]': depth -= 1
            if depth == 0 and cond.startswith('||', k): bad = True
            if depth == 0 and cond.startswith('&&', k) and cut is None: cut = k
        if cut is None or bad or '?' in cond or not s.startswith(' {\n', b): out += s[i:m.end()]; i = m.end(); continue
        c = match(s, b + 1)
        if s.startswith(' else', c) or '\n#' in s[b:c] or '\\\n' in s[m.start():c]: out += s[i:m.end()]; i = m.end(); continue
        out += s[i:m.start()] + m.group(1) + 'if (' + cond[:cut].strip() + ') { if (' + cond[cut + 2:].strip() + ') ' + nested(s[b + 1:c]) + ' }'; i = c
    return out + s[i:]
def nots(s):
    s = re.sub(r'if \(!([\w>\.-]+)\)', r'if (\1 == 0)', s)
    return re.sub(r'if \(([\w]+->[\w]+)\)', r'if (\1 != 0)', s)
def flags(s):
    """conditions are put into a variable first"""
    out, i = '', 0
    for m in iter(lambda: re.compile(r'(?<=[;}])\n( +)if \(', re.M).search(s, i), None):
        a = m.end() - 1; b = match(s, a, '(', ')')
        if not s.startswith(' {\n', b) and not s.startswith('\n', b) or '\\\n' in s[m.start():b + 60]: out += s[i:m.end()]; i = m.end(); continue
        out += s[i:m.start()] + '\n' + m.group(1) + '{ gboolean c_ = (' + s[a:b] + ' != 0); (void) c_; }' if 0 else s[i:m.start()] + '\n' + m.group(1) + 'if (({ gboolean c_ = !!' + s[a:b] + '; c_; }))'; i = b
    return out + s[i:]
def cases(s):
    """the groups of a switch, each ending in break or return, in reverse order"""
    out, i = '', 0
    for m in iter(lambda: re.compile(r'^( +)switch \(', re.M).search(s, i), None):
        a = m.end() - 1; b = match(s, a, '(', ')')
        c = match(s, b + 1); body = s[b + 2:c - 1]; ind = m.group(1)
        if '\n#' in body or '\\\n' in body: out += s[i:m.end()]; i = m.end(); continue
        groups, cur = [], []
        for line in body.strip('\n').split('\n'):
            if re.match(re.escape(ind) + r'(case\b|default:)', line) and cur and not re.match(re.escape(ind) + r'(case\b[^:]*:|default:)$', cur[-1]):
                groups.append(cur); cur = []
            cur.append(line)
        tail = [] 
        if cur and not cur[-1].strip(): cur.pop()
        groups.append(cur)
        ok = all(re.match(r'\s*(break;|return\b.*;|goto .*;|\})$', [l for l in g if l.strip()][-1]) for g in groups if g)
        ok = ok and all([l for l in g if l.strip()][-1].strip() != '}' for g in groups)
        if not ok or len(groups) < 2: out += s[i:m.end()]; i = m.end(); continue
        out += s[i:b] + ' {\n' + '\n'.join('\n'.join(g) for g in reversed(groups)) + '\n' + ind + '}'; i = c
    return out + s[i:]
def temps(s):
    """priv->field read through another pointer to it"""
    def g(t, n, p, b):
        m = re.search(r'^( +)priv = (MILTER_\w+_GET_PRIVATE\([^;]*\));$', b, re.M)
        d = re.search(r'^( +)(Milter\w+Private) \*priv( = [^;]*)?;$', b, re.M)
        if not m or not d: return None
        return "%s\n%s (%s)\n{\n%s}\n" % (t, n, p, b[:d.start()] + '    %s *private_data;\n' % d.group(2) + b[d.start():m.start()] + m.group(1) + 'private_data = ' + m.group(2) + ';\n' + m.group(1) + 'priv = private_data;' + b[m.end():])
    return functions(s, g)
KINDS = dict(wrap=wrap, ifelse=ifelse, whiles=whiles, returns=returns, nested=nested, nots=nots, flags=flags, cases=cases, temps=temps, **{'wrap%d' % k: (lambda s, k=k: wrap(s, k)) for k in range(5)})
def main():
    a = sys.argv[1:]; only = None
    if '-c' in a: only = a[a.index('-c') + 1].split(','); a = a[:a.index('-c')]
    checks = only or [c["property"] for c in json.load(open('/verif/MANIFEST.json'))["checks"]]
    for kind in a or KINDS:
        d = tempfile.mkdtemp(prefix="ref"); r = d + "/repo"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git") if os.environ.get('BUILD') else shutil.ignore_patterns("_build", ".git"), symlinks=True)
        n = 0
        for f in glob.glob(r + "/milter/*/*.c"):
            if re.search(r'enum-types|marshal', f): continue
            s = open(f).read(); t = KINDS[kind](s)
            if t != s: open(f, "w").write(t); n += 1
        os.makedirs(d + "/b"); os.makedirs(d + "/ev"); os.symlink("/verif/build/extract", d + "/b/extract")
        e = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=d + "/b", VERIF_EVIDENCE=d + "/ev")
        def one(c):
            x = subprocess.run(["/verif/check", c], env=e, capture_output=True, text=True, timeout=900); return c, x.returncode, (x.stdout + x.stderr).strip()
        res = [one(checks[0])]
        if 'cannot parse' in res[0][2]: print("== %s: %s" % (kind, res[0][2][:1500])); shutil.rmtree(d); continue
        with ThreadPoolExecutor(5) as ex: res += list(ex.map(one, checks[1:]))
        print("== %s: %d files changed, %d of %d checks quiet" % (kind, n, sum(1 for x in res if x[1] == 0), len(res)))
        for c, rc, o in res:
            if rc: print("   %s rc=%d %s" % (c, rc, '\n        '.join(o.split('\n')[:int(os.environ.get("N", "3"))])[:900]))
        sys.stdout.flush()
        if os.environ.get("KEEP"): print(d)
        else: shutil.rmtree(d)
main()
