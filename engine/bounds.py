"""Interval/linear-inequality analysis of buffer accesses.

A forward abstract interpretation over the extracted CFGs.  Integer values are linear expressions over symbols, pointers into a
tracked region are (region, linear offset); a state carries linear inequalities and the positions known to hold a NUL byte.
Loop heads get an invariant from a fixed template set (Houdini style); calls into the program are inlined.
Every access to a tracked region is an obligation decided by Fourier-Motzkin elimination."""
import re
from collections import defaultdict
from fractions import Fraction
from math import gcd
from absint import walk, walk_stmt, Limit

RANGE = {'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-2**15, 2**15-1),
         'unsigned short': (0, 65535), 'int': (-2**31, 2**31-1), 'unsigned int': (0, 2**32-1), 'long': (-2**63, 2**63-1),
         'unsigned long': (0, 2**64-1), 'long long': (-2**63, 2**63-1), 'unsigned long long': (0, 2**64-1), '_Bool': (0, 1)}
SIZE = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8,
        'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, '_Bool': 1, 'void': 1}
def bare(t): return re.sub(r'\b(const|volatile|restrict)\b', '', t).replace('  ', ' ').strip()
def pointee(t):
    t = bare(t)
    return bare(t[:-1]) if t.endswith('*') else None
def sizeof(t):
    t = bare(t)
    if t in SIZE: return SIZE[t]
    if t.endswith('*'): return 8
    m = re.match(r'(.*?)\s*\[(\d+)\]$', t)
    if m:
        s = sizeof(m.group(1))
        return None if s is None else s * int(m.group(2))
    if t.startswith('enum '): return 4
    return None

class Lin:
    __slots__ = ('c', 't', 'h')
    def __init__(self, c, t=()):
        self.c = c; self.t = t; self.h = hash((c, t))
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def __repr__(self):
        s = "".join(("%+d*" % k if abs(k) != 1 else '+' if k > 0 else '-') + sname(v) for v, k in self.t)
        return (s + ("%+d" % self.c if self.c else '')).lstrip('+') or str(self.c)
def sname(s):
    return s if isinstance(s, str) else str(s[-1]) if isinstance(s, tuple) else str(s)
_sk = {}
def skey(s):
    r = _sk.get(s)
    if r is None: r = _sk[s] = repr(s)
    return r
def mk(c, d): return Lin(c, tuple(sorted(((s, k) for s, k in d.items() if k), key=lambda x: skey(x[0]))))
def const(n): return Lin(n)
def sym(s): return Lin(0, ((s, 1),))
def add(a, b, k=1):
    d = dict(a.t)
    for s, v in b.t: d[s] = d.get(s, 0) + k * v
    return mk(a.c + k * b.c, d)
def sub(a, b): return add(a, b, -1)
def scale(a, k): return Lin(a.c * k, tuple((s, v * k) for s, v in a.t)) if k else const(0)
ZERO = const(0)

# value kinds: Lin | ('p', base, Lin) | ('c', op, x, y) comparison | ('!', v) | ('fn', name) | ('s', text)
class State:
    __slots__ = ('env', 'cons', 'nul', 'mon', 'nz')
    def __init__(self, env, cons, nul, mon=None, nz=frozenset()):
        self.env, self.cons, self.nul, self.mon, self.nz = env, cons, nul, mon, nz
    def copy(self): return State(dict(self.env), self.cons, self.nul, self.mon, self.nz)
    def key(self): return (frozenset(self.env.items()), self.cons, self.nul, self.mon, self.nz)

class Split(Exception):
    """a conversion wraps for some values: the element is executed again for each alternative"""
    def __init__(self, alts): self.alts = alts
_fm = {}
def infeasible(cons):
    """no rational point satisfies all c >= 0 (after integer tightening)"""
    key = cons if isinstance(cons, frozenset) else frozenset(cons)
    r = _fm.get(key)
    if r is not None: return r
    r = _fm[key] = _infeasible(key)
    return r
def tighten(l):
    g = 0
    for _, k in l.t: g = gcd(g, abs(k))
    if g > 1: return Lin(l.c // g, tuple((s, k // g) for s, k in l.t))
    return l
def _infeasible(cons):
    cs = set()
    for l in cons:
        if not l.t:
            if l.c < 0: return True
        else: cs.add(tighten(l))
    while cs:
        cnt = defaultdict(lambda: [0, 0])
        for l in cs:
            for s, k in l.t: cnt[s][0 if k > 0 else 1] += 1
        s = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], skey(x)))
        pos = [l for l in cs if any(x == s and k > 0 for x, k in l.t)]
        neg = [l for l in cs if any(x == s and k < 0 for x, k in l.t)]
        rest = cs - set(pos) - set(neg)
        for p in pos:
            kp = dict(p.t)[s]
            for n in neg:
                kn = -dict(n.t)[s]
                r = tighten(add(scale(p, kn), n, kp))
                if not r.t:
                    if r.c < 0: return True
                else: rest.add(r)
        if len(rest) > 400: return False       # give up: not proved
        # keep only the strongest constant per direction
        best = {}
        for l in rest:
            if l.t not in best or best[l.t].c > l.c: best[l.t] = l
        cs = set(best.values())
    return False

def relevant(cons, l):
    syms = set(s for s, _ in l.t)
    ch = True
    out = set()
    rem = list(cons)
    while ch:
        ch = False
        nr = []
        for c in rem:
            if any(s in syms for s, _ in c.t):
                out.add(c)
                for s, _ in c.t:
                    if s not in syms: syms.add(s); ch = True
            else: nr.append(c)
        rem = nr
    return out
def entails(cons, l):
    if not l.t: return l.c >= 0
    neg = add(scale(l, -1), const(-1))
    r = relevant(cons, neg)
    r.add(neg)
    return infeasible(frozenset(r))

FMT = {'g_set_error': 3, 'g_strdup_printf': 0, 'g_string_append_printf': 1, 'g_string_printf': 1, 'milter_logger_log': 6,
       'g_error_new': 2, 'printf': 0, 'fprintf': 1, 'g_print': 0, 'g_printerr': 0, 'g_log': 2, 'g_prefix_error': 1, 'sprintf': 1,
       'g_message': 0, 'snprintf': 2, 'g_snprintf': 2, 'g_strdup_vprintf': 0, 'g_vsnprintf': 2, 'g_error_new_literal': 99, 'sscanf': 1}
CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|q|L)?([diouxXcspfgeEGn%])')
# reading functions: list of ('s', i) C string, ('b', i, j) block of args[j] bytes
READS = {
    'strlen': ['s0'], 'strcmp': ['s0', 's1'], 'strncmp': ['n02', 'n12'], 'strchr': ['s0'], 'strrchr': ['s0'], 'strstr': ['s0', 's1'],
    'strcasecmp': ['s0', 's1'], 'g_str_equal': ['s0', 's1'], 'g_strcmp0': ['s0', 's1'], 'g_str_has_prefix': ['s0', 's1'],
    'g_str_has_suffix': ['s0', 's1'], 'inet_pton': ['s1'], 'g_strsplit': ['s0', 's1'], 'g_string_new': ['s0'], 'g_string_append': ['s1'],
    'g_string_prepend': ['s1'], 'g_string_assign': ['s1'], 'g_ascii_strcasecmp': ['s0', 's1'], 'atoi': ['s0'], 'strtol': ['s0'],
    'strtoul': ['s0'], 'g_ascii_strtoull': ['s0'], 'g_ascii_strtoll': ['s0'], 'strtoull': ['s0'], 'g_utf8_validate': ['b01'],
    'g_string_append_len': ['b12'], 'g_string_new_len': ['b01'], 'g_string_append_c': [], 'memcmp': ['b02', 'b12'], 'g_str_hash': ['s0'],
    'g_error_new_literal': ['s2'], 'g_set_error_literal': ['s3'], 'g_strconcat': ['s*'], 'g_strstr_len': ['n01'], 'g_strescape': ['s0'],
    'g_quark_from_string': ['s0'], 'g_strlcpy': ['s1'], 'g_strlcat': ['s1'], 'puts': ['s0'], 'g_hash_table_insert': [],
    'g_hash_table_replace': [], 'g_hash_table_lookup': ['s1'], 'g_free': [], 'g_list_append': [], 'g_list_prepend': [], 'inet_addr': ['s0'],
    'g_ascii_strncasecmp': ['n02', 'n12'], 'g_strv_length': [], 'g_ascii_strtod': ['s0'], 'g_ascii_strdown': ['N01'], 'g_ascii_strup': ['N01'],
    'g_utf8_strlen': ['N01'], 'g_string_insert': ['s2'], 'g_string_erase': [], 'milter_logger_get_interesting_level': [],
    'g_return_if_fail_warning': ['s1', 's2'], 'inet_aton': ['s0'], 'strspn': ['s0', 's1'], 'strcspn': ['s0', 's1'], 'strpbrk': ['s0', 's1'],
    'sscanf': ['s0', 's1'], 'g_byte_array_append': ['b12'], 'g_bytes_new': ['b01'], 'fwrite': [], 'write': ['b12'],
}

class Bounds:
    """rule object: obligations(kind, ok, where, text) are collected in self.obl"""
    max_depth = 12
    def __init__(self, prog, inline=None, hooks=None, budget=400000, sizes=None):
        self.p = prog
        self.inline = inline or (lambda fn: True)
        self.hooks = hooks or {}
        self.sink = []
        self.budget = budget
        self.steps = 0
        self.fns = set()
        self.loops = {}
        self.calls = 0
        self.sizes = sizes or {}
        self.emits = []
        self.keep = {'length'}
        self.nosplit = False

    # -------------------------------------------------------------- obligations
    def oblige(self, ok, fr, node, what, kind):
        self.sink.append((bool(ok), fr.fn.file, fr.fn.name, node.get('l', 0) if isinstance(node, dict) else 0, kind, what))

    # -------------------------------------------------------------- constraints
    def assume(self, st, l):
        """add l >= 0; False when infeasible"""
        if not l.t: return l.c >= 0
        if entails(st.cons, l): return True
        st.cons = st.cons | {tighten(l)}
        r = relevant(st.cons, l)
        return not infeasible(frozenset(r))
    def ent(self, st, l): return entails(st.cons, l)
    def fresh(self, st, name, t=None):
        """t: C type for the range"""
        v = sym(name)
        r = RANGE.get(bare(t)) if t else None
        if t and t.startswith('enum '): r = RANGE['int']
        if r is None and t and '*' in t: r = (0, 2**64 - 1)
        if r:
            self.assume(st, add(v, const(-r[0]))); self.assume(st, sub(const(r[1]), v))
        return v
    def norm(self, st, x, t):
        """value x represented in integer type t: list of (state, value)"""
        r = RANGE.get(bare(t))
        if r is None: return [(st, x)]
        lo, hi = add(x, const(-r[0])), sub(const(r[1]), x)
        if self.ent(st, lo) and self.ent(st, hi): return [(st, x)]
        w = r[1] - r[0] + 1
        out = []
        for k in (0, w, -w, -2**64 if w < 2**64 else None):
            if k is None: continue
            y = add(x, const(k))
            s = st.copy()
            if self.assume(s, add(y, const(-r[0]))) and self.assume(s, sub(const(r[1]), y)): out.append((s, y))
        return out
    # -------------------------------------------------------------- values
    def lin(self, st, fr, v, tag):
        """integer view of a value"""
        if isinstance(v, Lin): return v
        if v[0] in ('c', '!', '&&', '||'):
            t = self.truth(st, v)
            if t is not None: return const(1 if t else 0)
            return self.fresh(st, ('b', fr.chain, tag), '_Bool')
        if v[0] == 'p':
            return self.fresh(st, ('addr', v[1]), 'void *')
        return self.fresh(st, ('u', fr.chain, tag))
    def truth(self, st, v):
        if isinstance(v, Lin):
            if not v.t: return v.c != 0
            if self.ent(st, add(v, const(-1))) or self.ent(st, add(scale(v, -1), const(-1))): return True
            if self.ent(st, v) and self.ent(st, scale(v, -1)): return False
            return None
        k = v[0]
        if k in ('p', 'fn', 's'): return True
        if k == '!':
            t = self.truth(st, v[1])
            return None if t is None else not t
        if k == 'c':
            op, d = v[1], sub(v[2], v[3])
            if op == '<':
                if self.ent(st, add(scale(d, -1), const(-1))): return True
                if self.ent(st, d): return False
            elif op == '<=':
                if self.ent(st, scale(d, -1)): return True
                if self.ent(st, add(d, const(-1))): return False
            elif op == '==':
                if self.ent(st, d) and self.ent(st, scale(d, -1)): return True
                if self.ent(st, add(d, const(-1))) or self.ent(st, add(scale(d, -1), const(-1))): return False
            return None
        return None
    def branch(self, st, v, truth):
        """states in which v has the truth value"""
        t = self.truth(st, v)
        if t is not None: return [st] if t == truth else []
        if isinstance(v, Lin): v = ('!', ('c', '==', v, ZERO))
        if v[0] == '!': return self.branch(st, v[1], not truth)
        op, a, b = v[1], v[2], v[3]
        d = sub(a, b)
        def go(*ls):
            s = st.copy()
            for l in ls:
                if not self.assume(s, l): return []
            if op == '==' and truth: self.note_zero(s, a, b)
            if op == '==' and not truth and len(a.t) == 1 and isinstance(a.t[0][0], tuple) and a.t[0][0][:2] == ('ar', '&'): self.note_class(s, a.t[0][0])
            return [s] if self.sharpen(s) else []
        m = scale(d, -1)
        if op == '<': return go(add(m, const(-1))) if truth else go(d)
        if op == '<=': return go(m) if truth else go(add(d, const(-1)))
        if op == '==':
            if truth: return go(d, m)
            for x, y in ((a, b), (b, a)):
                if y == ZERO and self.byte_of(x):
                    q = self.byte_of(x)
                    s = st.copy(); s.nz = s.nz | {(q[1], q[2])}
                    return [s] if self.sharpen(s) else []
            return go(add(d, const(-1))) + go(add(m, const(-1)))
        return [st.copy()]
    def note_zero(self, st, a, b):
        """a byte of a region compared equal to zero"""
        for x, y in ((a, b), (b, a)):
            if y == ZERO and len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
                s = x.t[0][0]
                if isinstance(s, tuple) and s[0] == 'byte': st.nul = st.nul | {(s[1], s[2])}
            elif not y.t and y.c and self.byte_of(x):
                q = self.byte_of(x); st.nz = st.nz | {(q[1], q[2])}
    def byte_of(self, x):
        if isinstance(x, Lin) and x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1 and isinstance(x.t[0][0], tuple) and x.t[0][0][0] == 'byte': return x.t[0][0]
    def note_class(self, st, s):
        """a character class test succeeded: the byte isn't NUL"""
        a, b = s[2], s[3]
        if len(a.t) == 1 and isinstance(a.t[0][0], tuple) and a.t[0][0][0] == 'ascii' and not b.t and not b.c & 4:
            i = a.t[0][0][1]
            q = self.byte_of(Lin(0, i.t))
            if q and i.c in (0, 256): st.nz = st.nz | {(q[1], q[2])}
    def sharpen(self, st):
        """a NUL isn't at a position known to hold another byte"""
        if not st.nz: return True
        ch, n = True, 0
        while ch and n < 12:
            ch = False; n += 1
            for b, e in st.nul:
                for c, o in st.nz:
                    if b == c and b[1] == 'packet':
                        d = sub(e, o)
                        if not self.ent(st, add(d, const(-1))) and self.ent(st, d):
                            if not self.assume(st, add(d, const(-1))): return False
                            ch = True
        return True    # -------------------------------------------------------------- regions
    def size_of(self, base):
        if base[0] == 'reg': return base[2]
        return None
    def access(self, st, fr, node, base, off, n, what):
        """n: Lin number of bytes"""
        sz = self.size_of(base)
        if sz is None: return
        if self.ent(st, scale(n, -1)) and self.ent(st, n): return
        ok = self.ent(st, off) and self.ent(st, n) and self.ent(st, sub(sz, add(off, n)))
        self.oblige(ok, fr, node, "%s of %s byte(s) at offset %s of %s (size %s)" % (what, n, off, base[1], sz), what)
    def nul_after(self, st, base, off):
        sz = self.size_of(base)
        for b, e in st.nul:
            if b == base and self.ent(st, sub(e, off)) and (sz is None or self.ent(st, add(sub(sz, e), const(-1)))): return e
        return None
    def cstr(self, st, fr, node, v, what):
        if isinstance(v, Lin) or v[0] != 'p': return
        base, off = v[1], v[2]
        if self.size_of(base) is None: return
        ok = self.ent(st, off) and self.nul_after(st, base, off) is not None
        self.oblige(ok, fr, node, "%s reads a string at offset %s of %s (size %s) which must be terminated inside it"
                    % (what, off, base[1], self.size_of(base)), 'string')
    def block(self, st, fr, node, v, n, what):
        if isinstance(v, Lin) or v[0] != 'p': return
        self.access(st, fr, node, v[1], v[2], n, what)
    def kill(self, st, base):
        st.env.pop(('lit', base), None)
        if any(b == base for b, _ in st.nul): st.nul = frozenset(x for x in st.nul if x[0] != base)
        for l in [l for l in st.env if l[0] == 'mem' and l[1] == base]: del st.env[l]
    # -------------------------------------------------------------- locations
    def loc(self, st, fr, e):
        """('l', key) ordinary location or ('m', base, off) in a region"""
        k = e['k']
        if k == 'var':
            if 'g' in e: return ('l', ('g', e['n']))
            return ('l', ('v', fr.chain, e['id']))
        if k == 'mem':
            if e['arrow']: b = self.deref(st, fr, self.ev(st, fr, e['b']))
            else: b = self.loc(st, fr, e['b'])
            if b[0] == 'm': return ('l', ('f', ('R',) + b[1:], e['f']))
            return ('l', ('f', b[1], e['f']))
        if k == 'idx':
            return self.deref(st, fr, self.padd(st, fr, self.ev(st, fr, e['b']), self.ev(st, fr, e['x']), e['t'], e))
        if k == 'un' and e['o'] == '*': return self.deref(st, fr, self.ev(st, fr, e['x']))
        if k == 'cast': return self.loc(st, fr, e['x'])
        if k == 'ref':
            return self.deref(st, fr, self.ev(st, fr, e))
        return ('l', ('?', fr.chain, id(e)))
    def deref(self, st, fr, v):
        if not isinstance(v, Lin):
            if v[0] == 'p':
                if v[1][0] == '&': return ('l', v[1][1]) if v[2] == ZERO else ('l', ('x', v[1][1], v[2]))
                return ('m', v[1], v[2])
        return ('l', ('d', v))
    def padd(self, st, fr, p, i, elt, node, k=1):
        i = self.lin(st, fr, i, id(node))
        if not isinstance(p, Lin) and p[0] == 'p':
            s = sizeof(elt)
            if s is None: return ('p', p[1], self.fresh(st, ('off', fr.chain, node.get('l'))))
            return ('p', p[1], add(p[2], scale(i, s * k)))
        if isinstance(p, Lin): return self.fresh(st, ('ptr', p, i, k), 'void *')
        return ('x', p, i)
    def array_base(self, st, key, t):
        """region of a fixed size array object"""
        n = sizeof(t)
        return ('p', ('reg', ('array',) + (key,), const(n)) if n is not None else ('obj', key), ZERO)
    def load(self, st, fr, l, t, node):
        if t and bare(t).endswith(']'):
            if l[0] == 'm': return ('p', l[1], l[2])
            return self.array_base(st, l[1], t)
        if l[0] == 'm':
            n = sizeof(t) if t else 1
            if n: self.access(st, fr, node, l[1], l[2], const(n), 'read')
            v = st.env.get(('mem', l[1], l[2]))
            if v is not None: return v
            if n == 1 and (l[1], l[2]) in st.nul: return ZERO
            return self.fresh(st, ('byte', l[1], l[2]), t)
        v = st.env.get(l[1])
        if v is None:
            k = l[1]
            if node.get('k') == 'idx' and node['b'].get('n') == 'g_ascii_table':
                i = self.ev(st, fr, node['x'])
                if isinstance(i, Lin): return self.fresh(st, ('ascii', i), t)
            if k[0] == 'f' and k[2] == 'str' and ('strof', k[1]) in st.env: return st.env[('strof', k[1])]
            v = self.fresh(st, ('ld', k), t)
            st.env[k] = v
        return v
    def store(self, st, fr, l, v, t, node):
        if l[0] == 'm':
            n = sizeof(t) if t else 1
            if n: self.access(st, fr, node, l[1], l[2], const(n), 'write')
            self.kill(st, l[1])
            if isinstance(v, Lin) and v == ZERO: st.nul = st.nul | {(l[1], l[2])}
            st.env[('mem', l[1], l[2])] = v
            return
        if l[1][0] == 'd':
            # a store through an unknown pointer changes no tracked local
            pass
        for k in [k for k in st.env if k[0] in ('f', 'x') and k[1] == l[1]]: del st.env[k]
        st.env[l[1]] = v
    # -------------------------------------------------------------- expressions (no forking except via self.forks)
    def ev(self, st, fr, e):
        k = e['k']
        if k == 'int': return const(e['v'])
        if k == 'str': return ('s', e['v'])
        if k == 'fn': return ('fn', e['n'])
        if k == 'var' or k == 'idx' or (k == 'mem'):
            return self.load(st, fr, self.loc(st, fr, e), e.get('t'), e)
        if k == 'ref':
            v = st.env.get(('r', fr.chain, e['i']))
            return v if v is not None else self.fresh(st, ('ref', fr.chain, e['i']))
        if k == 'cast':
            v = self.ev(st, fr, e['x'])
            t = bare(e['t'])
            if isinstance(v, Lin) and t in RANGE:
                return self.one(st, self.norm(st, v, t), fr, e, t)
            if not isinstance(v, Lin) and v[0] in ('c', '!'): return v
            return v
        if k == 'asg':
            y = self.ev(st, fr, e['y'])
            l = self.loc(st, fr, e['x'])
            t = e['x'].get('t') or e.get('t')
            if e['o'] != '=':
                y = self.arith(st, fr, e['o'][:-1], self.load(st, fr, l, t, e), y, t, e)
            if not isinstance(y, Lin) and y[0] in ('c', '!') : y = self.keepbool(st, fr, y, e)
            self.store(st, fr, l, y, t, e)
            return y
        if k == 'un':
            o = e['o']
            if o == '!': return self.neg(self.ev(st, fr, e['x']))
            if o == '&':
                l = self.loc(st, fr, e['x'])
                if l[0] == 'm': return ('p', l[1], l[2])
                if l[1][0] == 'd': return l[1][1]
                return ('p', ('&', l[1]), ZERO)
            if o == '*': return self.load(st, fr, self.loc(st, fr, e), e.get('t'), e)
            if o in ('pre++', 'post++', 'pre--', 'post--'):
                l = self.loc(st, fr, e['x'])
                t = e['x'].get('t') or e.get('t')
                old = self.load(st, fr, l, t, e)
                new = self.arith(st, fr, '+' if '++' in o else '-', old, const(1), t, e)
                self.store(st, fr, l, new, t, e)
                return new if o.startswith('pre') else old
            v = self.ev(st, fr, e['x'])
            if o == '-' and isinstance(v, Lin): return self.one(st, self.norm(st, scale(v, -1), e.get('t', 'int')), fr, e, e.get('t', 'int'))
            if o == '+': return v
            return self.fresh(st, ('un', fr.chain, id(e)), e.get('t'))
        if k == 'bin':
            o = e['o']
            if o in ('&&', '||'):
                rec = st.env.get(('L', fr.chain, e['lid']))
                if rec is not None:
                    if e['x']['k'] == 'ref' or e['x']['k'] == 'bin' and e['x']['o'] in ('&&', '||'):
                        a = self.ev(st, fr, e['x'])
                        if o == '&&' and a == ZERO: return ZERO
                        if o == '||' and a == const(1): return const(1)
                    if o == '&&' and rec == ZERO: return ZERO
                    if o == '||' and rec == const(1): return const(1)
                    return self.ev(st, fr, e['y'])
                # the left operand, itself such an operator, jumped past this one's test
                a = self.ev(st, fr, e['x'])
                t = self.truth(st, a)
                if t is not None:
                    if t is (o == '||'): return const(1 if t else 0)
                    return self.ev(st, fr, e['y'])
                return self.fresh(st, ('lg', fr.chain, e['lid']), '_Bool')
            return self.arith(st, fr, o, self.ev(st, fr, e['x']), self.ev(st, fr, e['y']), e.get('t'), e)
        if k == 'cond':
            rec = st.env.get(('L', fr.chain, e['lid']))
            if rec == const(1): return self.ev(st, fr, e['x'])
            if rec == ZERO: return self.ev(st, fr, e['y'])
            return self.fresh(st, ('cd', fr.chain, e['lid']), e.get('t'))
        if k == 'seq':
            self.ev(st, fr, e['x']); return self.ev(st, fr, e['y'])
        if k == 'stmtexpr': return self.ev(st, fr, e['x']) if 'x' in e else ZERO
        if k == 'zero': return ZERO
        if k == 'call': return self.fresh(st, ('ncall', fr.chain, e.get('l')), e.get('t'))
        return self.fresh(st, ('e', fr.chain, k, e.get('l', 0)), e.get('t'))
    def keepbool(self, st, fr, v, e):
        t = self.truth(st, v)
        if t is not None: return const(1 if t else 0)
        return v
    def one(self, st, alts, fr, e, t):
        """several alternatives: the state splits when the statement is finished"""
        if len(alts) == 1:
            s, v = alts[0]
            st.cons = s.cons
            return v
        if not alts: return self.fresh(st, ('nrm', fr.chain, e.get('l'), id(e)), t)
        if self.nosplit: return self.fresh(st, ('nrm', fr.chain, e.get('l'), id(e)), t)
        raise Split([s.cons for s, y in alts])
    def neg(self, v):
        if isinstance(v, Lin) and not v.t: return const(0 if v.c else 1)
        if not isinstance(v, Lin) and v[0] == '!': return v[1] if not isinstance(v[1], Lin) else ('!', v)
        return ('!', v)
    def arith(self, st, fr, o, a, b, t, e):
        pa, pb = not isinstance(a, Lin) and a[0] == 'p', not isinstance(b, Lin) and b[0] == 'p'
        if o in ('+', '-') and pa and not pb:
            return self.padd(st, fr, a, b, pointee(t or 'char *') or 'char', e, 1 if o == '+' else -1)
        if o == '+' and pb: return self.padd(st, fr, b, a, pointee(t or 'char *') or 'char', e)
        if o == '-' and pa and pb and a[1] == b[1]:
            s = sizeof(pointee(e['x'].get('t', 'char *')) or 'char') if e.get('x') else 1
            d = sub(a[2], b[2])
            return d if s == 1 else self.fresh(st, ('pd', fr.chain, id(e)), 'long')
        if o in ('==', '!=', '<', '>', '<=', '>='):
            if pa and pb and a[1] == b[1]: a, b = a[2], b[2]
            elif o in ('==', '!=') and (pa or not isinstance(a, Lin) and a[0] in ('s', 'fn')) and b == ZERO: return const(0 if o == '==' else 1)
            elif o in ('==', '!=') and (pb or not isinstance(b, Lin) and b[0] in ('s', 'fn')) and a == ZERO: return const(0 if o == '==' else 1)
            elif o in ('==', '!=') and not isinstance(a, Lin) and a[0] in ('c', '!') and isinstance(b, Lin) and b in (ZERO, const(1)):
                return a if (o == '==') == (b == const(1)) else self.neg(a)
            a, b = self.lin(st, fr, a, (id(e), 0)), self.lin(st, fr, b, (id(e), 1))
            if o == '>': return self.simp(st, ('c', '<', b, a))
            if o == '>=': return self.simp(st, ('c', '<=', b, a))
            if o == '!=': return ('!', ('c', '==', a, b))
            return ('c', o, a, b)
        a, b = self.lin(st, fr, a, (id(e), 0)), self.lin(st, fr, b, (id(e), 1))
        r = None
        if o == '+': r = add(a, b)
        elif o == '-': r = sub(a, b)
        elif o == '*':
            if not a.t: r = scale(b, a.c)
            elif not b.t: r = scale(a, b.c)
        elif not a.t and not b.t:
            x, y = a.c, b.c
            try:
                r = const({'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y,
                           '/': lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), '%': lambda: x % y}[o]())
            except Exception: r = None
        if r is not None:
            if t and bare(t) in RANGE and (bare(t).startswith('unsigned') or not r.t):
                return self.one(st, self.norm(st, r, bare(t)), fr, e, bare(t))
            return r
        v = self.fresh(st, ('ar', o, a, b), t)
        if o == '&' and not b.t and b.c >= 0: self.assume(st, v); self.assume(st, sub(b, v))
        if o == '%' and not b.t and b.c > 0 and self.ent(st, a): self.assume(st, v); self.assume(st, sub(const(b.c - 1), v))
        if o == '/' and not b.t and b.c > 0 and self.ent(st, a):
            self.assume(st, v); self.assume(st, sub(a, scale(v, b.c))); self.assume(st, sub(add(scale(v, b.c), const(b.c - 1)), a))
        if o == '>>' and self.ent(st, a): self.assume(st, v); self.assume(st, sub(a, v))
        return v
    def simp(self, st, v): return v

    # -------------------------------------------------------------- calls
    def call(self, st, fr, node, eid):
        self.calls += 1
        name = node.get('fn')
        args = [self.ev(st, fr, a) for a in node['a']]
        t = node.get('t')
        rn = ('ret', fr.chain, eid)
        if name is None:
            fv = self.ev(st, fr, node['f'])
            if not isinstance(fv, Lin) and fv[0] == 'fn': name = fv[1]
            else: name = '*indirect*'
        h = self.hooks.get(name)
        if h:
            r = h(self, st, fr, node, args, eid)
            if r is not None: return r
        if name in FMT: self.printf(st, fr, node, name, args)
        if name in ('memcpy', 'memmove', '__builtin_memcpy', '__memcpy_chk', 'memcpy_inline'):
            n = self.lin(st, fr, args[2], (eid, 'n'))
            self.block(st, fr, node, args[1], n, 'read')
            self.write_block(st, fr, node, args[0], n, args[1])
            return [(st, args[0])]
        if name in ('memset', '__builtin_memset'):
            n = self.lin(st, fr, args[2], (eid, 'n'))
            self.write_block(st, fr, node, args[0], n, None)
            if not isinstance(args[0], Lin) and args[0][0] == 'p' and args[1] == ZERO and n.c > 0 and not n.t:
                st.nul = st.nul | {(args[0][1], args[0][2])}
            return [(st, args[0])]
        if name in ('memchr',):
            n = self.lin(st, fr, args[2], (eid, 'n'))
            p = args[0]
            self.block(st, fr, node, p, n, 'read')
            if not isinstance(p, Lin) and p[0] == 'p':
                s2 = st.copy()
                k = self.fresh(st, ('mc', fr.chain, eid))
                ok = self.assume(st, k) and self.assume(st, add(sub(n, k), const(-1)))
                out = [(s2, ZERO)]
                if ok:
                    o = add(p[2], k)
                    if args[1] == ZERO: st.nul = st.nul | {(p[1], o)}
                    out.append((st, ('p', p[1], o)))
                return out
        if name in ('strnlen', ):
            n = self.lin(st, fr, args[1], (eid, 'n'))
            p = args[0]
            if not isinstance(p, Lin) and p[0] == 'p':
                if self.nul_after(st, p[1], p[2]) is None: self.block(st, fr, node, p, n, 'read')
                r = self.fresh(st, rn)
                s2 = st.copy()
                out = []
                if self.assume(st, r) and self.assume(st, add(sub(n, r), const(-1))):
                    st.nul = st.nul | {(p[1], add(p[2], r))}; out.append((st, r))
                if self.assume(s2, sub(r, n)) and self.assume(s2, sub(n, r)) and self.assume(s2, r): out.append((s2, r))
                return out
        if name == 'strlen' and not isinstance(args[0], Lin):
            p = args[0]
            lit = self.literal(st, p)
            if lit is not None: return [(st, const(len(lit.encode('utf-8', 'replace'))))]
            if p[0] == 'p':
                self.cstr(st, fr, node, p, name)
                return [(st, self.slen(st, p, rn))]
        if name in ('g_str_has_prefix', 'strncmp', 'g_str_equal', 'strcmp') and len(args) >= 2 and not isinstance(args[0], Lin) and args[0][0] == 'p':
            lit = self.literal(st, args[1])
            p = args[0]
            if lit is not None and (name != 'strncmp' or isinstance(args[2], Lin) and not args[2].t and args[2].c <= len(lit)):
                n = len(lit) if name != 'strncmp' else args[2].c
                if name == 'strncmp':
                    if self.nul_after(st, p[1], p[2]) is None: self.block(st, fr, node, p, args[2], 'read')
                else: self.cstr(st, fr, node, p, name)
                s2 = st.copy()
                ok = True
                for b, e in list(st.nul):
                    if b == p[1] and self.ent(st, sub(e, p[2])): ok = ok and self.assume(st, add(sub(e, p[2]), const(-n)))
                yes, no = (const(1), ZERO) if name.startswith('g_') else (ZERO, const(1))
                return ([(st, yes)] if ok else []) + [(s2, no)]
        if name in ('g_strdup', 'g_strdup_inline', 'strdup'):
            p = args[0]
            self.cstr(st, fr, node, p, name)
            if isinstance(p, Lin) and p == ZERO: return [(st, ZERO)]
            if not isinstance(p, Lin) and p[0] == 'p':
                n = self.slen(st, p, ('sl', fr.chain, eid))
                base = ('reg', ('heap', fr.chain, eid), add(n, const(1)))
                st.nul = st.nul | {(base, n)}
                return [(st, ('p', base, ZERO))]
            return [(st, self.fresh(st, rn, t))]
        if name in ('g_strndup', 'strndup', 'g_memdup', 'g_memdup2'):
            n = self.lin(st, fr, args[1], (eid, 'n'))
            p = args[0]
            if not isinstance(p, Lin) and p[0] == 'p':
                e = self.nul_after(st, p[1], p[2]) if 'str' in name else None
                if e is None: self.block(st, fr, node, p, n, 'read')
                self.oblige(self.ent(st, n) and self.ent(st, sub(const(2**40), n)), fr, node, "%s gets a length of %s which may be negative" % (name, n), 'length')
                base = ('reg', ('heap', fr.chain, eid), add(n, const(1)) if 'str' in name else n)
                if 'str' in name: st.nul = st.nul | {(base, n)}
                return [(st, ('p', base, ZERO))]
            return [(st, self.fresh(st, rn, t))]
        if name in ('g_malloc', 'g_malloc0', 'malloc', 'g_try_malloc', 'g_alloca', '__builtin_alloca'):
            n = self.lin(st, fr, args[0], (eid, 'n'))
            return [(st, ('p', ('reg', ('heap', fr.chain, eid), n), ZERO))]
        if name in ('g_malloc_n', 'g_malloc0_n', 'calloc'):
            a, b = self.lin(st, fr, args[0], (eid, 0)), self.lin(st, fr, args[1], (eid, 1))
            if not a.t or not b.t:
                return [(st, ('p', ('reg', ('heap', fr.chain, eid), scale(b, a.c) if not a.t else scale(a, b.c)), ZERO))]
        if name in ('strcpy', 'g_stpcpy', 'stpcpy', '__builtin_strcpy', '__strcpy_chk', 'strcat'):
            s, d = args[1], args[0]
            self.cstr(st, fr, node, s, name)
            self.copy_string(st, fr, node, d, s, name)
            return [(st, d)]
        if name in ('strncpy', 'g_strlcpy', 'strlcpy', 'g_snprintf', 'snprintf', '__builtin_strncpy', '__strncpy_chk', '__builtin___strncpy_chk', 'g_strlcat'):
            i = 2 if name in ('strncpy', 'g_strlcpy', 'strlcpy', 'g_strlcat') or 'strncpy' in name else 1
            n = self.lin(st, fr, args[i], (eid, 'n'))
            if i == 2 and not isinstance(args[1], Lin) and args[1][0] == 'p' and self.nul_after(st, args[1][1], args[1][2]) is None:
                if 'strncpy' in name: self.block(st, fr, node, args[1], n, 'read')
                else: self.cstr(st, fr, node, args[1], name)
            if not isinstance(args[0], Lin) and args[0][0] == 'p':
                self.access(st, fr, node, args[0][1], args[0][2], n, 'write')
                self.kill(st, args[0][1])
                if 'strncpy' not in name: st.nul = st.nul | {(args[0][1], add(add(args[0][2], n), const(-1)))}
            return [(st, self.fresh(st, rn, t))]
        if name == 'g_string_append_len' or name == 'g_string_new_len':
            pass
        fn = self.p.resolve(name, fr.fn.file) if name != '*indirect*' else None
        if fn is not None and name not in READS and len(fr.names) < self.max_depth and name not in fr.names and self.inline(fn):
            nf = Fr(fn, fr.chain + ((eid, fr.fn.name),), fr.names + (name,))
            for p, a in zip(fn.params, args): st.env[('v', nf.chain, p['id'])] = a
            return self.run(st, nf)
        spec = READS.get(name)
        if spec is None and name not in FMT:
            for n, a in enumerate(args):
                if not isinstance(a, Lin) and a[0] == 'p' and a[1][0] == 'reg' and a[1][1] != ('any',):
                    if a[1][1] and isinstance(a[1][1], tuple) and a[1][1][0] in ('heap', 'array'): continue
                    if fn is not None: self.cstr(st, fr, node, a, name)
                    else: self.cstr(st, fr, node, a, name)
        for s in spec or ():
            if s == 's*':
                for a in args: self.cstr(st, fr, node, a, name)
                continue
            i = int(s[1])
            if i >= len(args): continue
            a = args[i]
            if s[0] == 's': self.cstr(st, fr, node, a, name)
            elif s[0] in 'bnN' and int(s[2]) < len(args):
                n = self.lin(st, fr, args[int(s[2])], (eid, s))
                if not isinstance(a, Lin) and a[0] == 'p':
                    if s[0] == 'n' and self.nul_after(st, a[1], a[2]) is not None: continue
                    neg = self.ent(st, add(scale(n, -1), const(-1))) or (n.t == () and n.c >= 2**63)
                    if s[0] in 'Nb' and neg: self.cstr(st, fr, node, a, name)
                    else: self.block(st, fr, node, a, n, 'read')
        for n, a in enumerate(args):
            if not isinstance(a, Lin) and a[0] == 'p' and a[1][0] == '&' and name not in ('g_free',):
                k = a[1][1]
                for x in [x for x in st.env if x == k or x[0] in ('f', 'x') and under(x, k)]: del st.env[x]
                st.env[k] = self.fresh(st, ('out', fr.chain, eid, n), self.vartype(fr, k))
        if name in ('strchr', 'strrchr', 'strstr', 'strpbrk', 'g_strstr_len') and not isinstance(args[0], Lin) and args[0][0] == 'p':
            p = args[0]
            e = self.nul_after(st, p[1], p[2])
            s2 = st.copy()
            k = self.fresh(st, ('mc', fr.chain, eid))
            if e is not None and self.assume(st, k) and self.assume(st, sub(sub(e, p[2]), k)):
                return [(s2, ZERO), (st, ('p', p[1], add(p[2], k)))]
            return [(s2, ZERO)]
        if name in ('g_strdup_printf', 'g_strconcat', 'g_string_new', 'g_string_new_len', 'g_hash_table_new_full', 'g_object_new'):
            v = self.fresh(st, rn, t)
            self.assume(st, add(v, const(-1)))
            return [(st, v)]
        return [(st, self.fresh(st, rn, t))]
    def literal(self, st, v):
        if isinstance(v, Lin): return None
        if v[0] == 's': return v[1]
        if v[0] == 'p' and v[2] == ZERO:
            l = st.env.get(('lit', v[1]))
            if l is not None: return l[1]
        return None
    def vartype(self, fr, k):
        if k[0] == 'v' and k[1] == fr.chain: return fr.fn.vartypes.get(k[2])
        return None
    def slen(self, st, p, name):
        r = sym(name)
        self.assume(st, r)
        for b, e in list(st.nul):
            if b == p[1] and self.ent(st, sub(e, p[2])): self.assume(st, sub(sub(e, p[2]), r))
        st.nul = st.nul | {(p[1], add(p[2], r))}
        return r
    def write_block(self, st, fr, node, d, n, src):
        if isinstance(d, Lin) or d[0] != 'p': return
        if d[1][0] == '&':
            k = d[1][1]
            t = self.vartype(fr, k)
            if t is None and k[0] == 'f': t = None
            sz = sizeof(t) if t else None
            if sz is not None:
                self.oblige(self.ent(st, n) and self.ent(st, sub(const(sz), n)), fr, node, "copy of %s byte(s) into an object of %d byte(s)" % (n, sz), 'write')
            for x in [x for x in st.env if x == k or x[0] in ('f', 'x') and under(x, k)]: del st.env[x]
            st.env[k] = self.fresh(st, ('cp', fr.chain, node.get('l'), k), t)
            return
        self.access(st, fr, node, d[1], d[2], n, 'write')
        self.kill(st, d[1])
    def copy_string(self, st, fr, node, d, s, name):
        if isinstance(d, Lin) or d[0] != 'p' or self.size_of(d[1]) is None: return
        room = sub(self.size_of(d[1]), d[2])
        ok = False
        if not isinstance(s, Lin):
            if s[0] == 's': ok = self.ent(st, add(room, const(-len(s[1].encode()) - 1)))
            elif s[0] == 'p':
                for b, e in st.nul:
                    if b == s[1] and self.ent(st, sub(e, s[2])) and self.ent(st, add(sub(room, sub(e, s[2])), const(-1))): ok = True
        self.oblige(ok, fr, node, "%s into an object with %s byte(s) left" % (name, room), 'write')
        self.kill(st, d[1])
        if not isinstance(s, Lin) and s[0] == 'p' and ok:
            pass
    def printf(self, st, fr, node, name, args):
        i = FMT[name]
        if i >= len(args): return
        f = args[i]
        if isinstance(f, Lin) or f[0] != 's':
            self.cstr(st, fr, node, f, name)
            for a in args[i + 1:]: self.cstr(st, fr, node, a, name)
            return
        rest = list(args[i + 1:])
        for m in CONV.finditer(f[1]):
            if m.group(5) == '%': continue
            prec = None
            if m.group(2) == '*' and rest: rest.pop(0)
            if m.group(3) == '*' and rest: prec = rest.pop(0)
            elif m.group(3) is not None: prec = const(int(m.group(3) or 0))
            if not rest: break
            a = rest.pop(0)
            if m.group(5) == 's':
                if prec is not None and isinstance(prec, Lin) and self.ent(st, prec) and not isinstance(a, Lin) and a[0] == 'p':
                    if self.nul_after(st, a[1], a[2]) is None: self.block(st, fr, node, a, prec, 'read')
                else: self.cstr(st, fr, node, a, name + ' %s')
        if name in ('sprintf',):
            d = args[0]
            if not isinstance(d, Lin) and d[0] == 'p' and self.size_of(d[1]) is not None:
                self.oblige(False, fr, node, "sprintf into a fixed size object", 'write')

    # -------------------------------------------------------------- control flow
    def run(self, st, fr):
        """inlined execution: list of (state, return value)"""
        self.fns.add(fr.fn.key())
        rets, outs, backs = self.region(fr, fr.fn.entry, [st], None, None)
        return rets
    def loopbody(self, fn, h):
        c = self.loops.get((fn.key(), h))
        if c is None:
            preds = defaultdict(set)
            for n, b in fn.blocks.items():
                for s in b['s']:
                    if s is not None: preds[s].add(n)
            # back edge sources: preds which come later in the order
            body = {h}
            work = [p for p in preds[h] if p in fn.order and fn.order[p] >= fn.order[h]]
            while work:
                x = work.pop()
                if x in body: continue
                body.add(x)
                work.extend(p for p in preds[x] if p in fn.order)
            c = self.loops[(fn.key(), h)] = body
        return c
    def region(self, fr, start, states, body, head):
        """run the blocks of body (None: all); returns (returns, {outside block: states}, states at the back edge to head)"""
        fn = fr.fn
        pend = defaultdict(dict)
        rets, outs, backs = {}, defaultdict(list), []
        for s in states: self.push(fr, pend, start, s)
        first = True
        while pend:
            b = min(pend, key=lambda x: fn.order.get(x, 1 << 30))
            todo = list(pend.pop(b).values())
            if len(todo) > 4000: raise Limit("too many states in %s" % fn.name)
            if b in fn.loopheads and not (b == head):
                lb = self.loopbody(fn, b)
                for s in todo:
                    r2, o2, _ = self.loop(fr, b, lb, s)
                    for k, v in r2: rets.setdefault((k.key(), v), (k, v))
                    for x, l in o2.items():
                        for s2 in l: self.dispatch(fr, x, s2, pend, outs, backs, body, head)
                continue
            for s in todo:
                for x, s2 in self.block_exec(fr, b, s, rets):
                    self.dispatch(fr, x, s2, pend, outs, backs, body, head)
        return list(rets.values()), outs, backs
    def dispatch(self, fr, x, s, pend, outs, backs, body, head):
        if x == head: backs.append(s)
        elif body is not None and x not in body: outs[x].append(s)
        else: self.push(fr, pend, x, s)
    def push(self, fr, pend, b, s):
        self.clean(fr, b, s)
        pend[b].setdefault(s.key(), s)
    def clean(self, fr, b, s):
        live, at, ch = fr.fn.live_in[b], fr.fn.addrtaken, fr.chain
        env = {}
        for l, v in s.env.items():
            if l[0] == 'v' and l[1] == ch and l[2] not in live and l[2] not in at: continue
            if l[0] == 'r' and l[1] == ch and ('r', l[2]) not in live: continue
            if l[0] == 'L' and l[1] == ch and ('L', l[2]) not in live: continue
            env[l] = v
        s.env = env
        self.gc(s)
    def gc(self, s, extra=None):
        used = set(self.keep)
        def go(v):
            if isinstance(v, Lin):
                for x, _ in v.t:
                    if x not in used:
                        used.add(x)
                        if isinstance(x, tuple): go(x)
            elif isinstance(v, tuple):
                for y in v:
                    if isinstance(y, (tuple, Lin)): go(y)
        for l, v in s.env.items():
            if l[0] in ('f', 'x', 'd', 'mem'): go(l)
            go(v)
        for x in s.nul: go(x)
        s.nz = frozenset(x for x in s.nz if all(y in used for y, _ in x[1].t))
        if extra is not None: go(extra)
        if s.mon: go(s.mon)
        ch = True
        cons = s.cons
        while ch:
            ch = False
            for c in cons:
                ss = [x for x, _ in c.t]
                if any(x in used for x in ss):
                    for x in ss:
                        if x not in used: used.add(x); ch = True
        pin = defaultdict(set)
        for c in cons:
            if len(c.t) == 1 and isinstance(c.t[0][0], tuple) and c.t[0][0][0] == 'byte' and all(y in used for y, _ in c.t[0][0][2].t):
                pin[c.t[0][0]].add((c.t[0][1], c.c))
        for q, l in pin.items():
            if any(k == 1 and (-1, -v) in l for k, v in l): used.add(q)
        s.cons = frozenset(c for c in cons if any(x in used for x, _ in c.t))
    def modified(self, fr, body):
        ids, fields, anyw = set(), set(), False
        def tgt(t):
            while t['k'] == 'cast': t = t['x']
            if t['k'] == 'var' and 'id' in t: ids.add(t['id'])
            elif t['k'] == 'mem': fields.add(t['f'])
            elif t['k'] == 'idx': tgt_arr(t)
        def tgt_arr(t):
            nonlocal anyw
            anyw = True
        for b in body:
            for i, e in fr.fn.blocks[b]['e']:
                if e['k'] == 'decl':
                    for d in e['d']:
                        if 'id' in d: ids.add(d['id'])
                for x in walk_stmt(e):
                    if x['k'] == 'asg': tgt(x['x'])
                    elif x['k'] == 'un' and x['o'] in ('pre++', 'post++', 'pre--', 'post--'): tgt(x['x'])
                    elif x['k'] == 'un' and x['o'] == '&':
                        t = x['x']
                        while t['k'] == 'mem' and not t['arrow']: t = t['b']
                        if t['k'] == 'var' and 'id' in t: ids.add(t['id'])
        return ids, fields
    def loop(self, fr, h, body, s, depth=0):
        ids, fields = self.modified(fr, body)
        ch = fr.chain
        hs = s.copy()
        mods = []           # (key, init Lin, symbol, make value)
        for k in list(hs.env):
            v = hs.env[k]
            if k[0] == 'v' and k[1] == ch and k[2] in ids:
                y = sym(('lp', ch, h, k[2], depth))
                if isinstance(v, Lin):
                    hs.env[k] = y; mods.append((v, y))
                elif v[0] == 'p':
                    hs.env[k] = ('p', v[1], y); mods.append((v[2], y))
                else: del hs.env[k]
            elif k[0] == 'f' and k[2] in fields: del hs.env[k]
            elif k[0] == 'x' : del hs.env[k]
            elif k[0] == 'mem': del hs.env[k]
            elif k[0] in ('r', 'L') and k[1] == ch: del hs.env[k]
            elif k[0] in ('f',) and root(k)[0] == 'v' and root(k)[2] in ids: del hs.env[k]
        hs.nul = frozenset(x for x in hs.nul if x[0][1] == 'packet')
        bounds = set()
        for k, v in s.env.items():
            if k[0] == 'v' and not (k[1] == ch and k[2] in ids):
                if isinstance(v, Lin): bounds.add(v)
                elif v[0] == 'p': bounds.add(v[2])
                if not isinstance(v, Lin) and v[0] == 'p' and self.size_of(v[1]) is not None: bounds.add(self.size_of(v[1]))
        for v, y in mods:
            pass
        for k, v in hs.env.items():
            if not isinstance(v, Lin) and v[0] == 'p' and self.size_of(v[1]) is not None: bounds.add(self.size_of(v[1]))
        for _, e in hs.nul: bounds.add(e)
        cand = set()
        for v0, y in mods:
            cs = [sub(y, v0), sub(v0, y), y, sub(const(1), y)]
            cs += [sub(b, y) for b in bounds] + [add(sub(b, y), const(-1)) for b in bounds] + [sub(y, b) for b in bounds]
            for v1, z in mods:
                if z != y: cs += [sub(sub(y, z), sub(v0, v1)), sub(z, y)]
                if z != y: cs += [sub(add(y, z), add(v0, v1)), sub(add(v0, v1), add(y, z))]
            # must hold initially
            for c in cs:
                if not c.t: continue
                init = c
                d = dict(c.t)
                k = d.pop(y.t[0][0], 0)
                init = add(mk(c.c, d), v0, k)
                for v1, z in mods:
                    if z != y:
                        d2 = dict(init.t); k2 = d2.pop(z.t[0][0], 0)
                        if k2: init = add(mk(init.c, d2), v1, k2)
                if entails(s.cons, init): cand.add(c)
        save = self.sink
        for it in range(40):
            self.sink = []
            t = hs.copy()
            t.cons = t.cons | frozenset(tighten(c) for c in cand)
            rets, outs, backs = self.region(fr, h, [t], body, h)
            again = []
            if depth < 2:
                # an iteration which learns about a byte starts another phase of the loop
                again = [x for x in backs if x.nul - hs.nul]
                backs = [x for x in backs if not (x.nul - hs.nul)]
            bad = set()
            cur = self.after_vals(fr, mods)
            for bs in backs:
                env = {}
                okv = {}
                for v0, y in mods:
                    key = ('v', ch, y.t[0][0][3])
                    nv = bs.env.get(key)
                    if nv is None: okv[y.t[0][0]] = None
                    elif isinstance(nv, Lin): okv[y.t[0][0]] = nv
                    elif nv[0] == 'p' and hs.env[key][0] == 'p' and not isinstance(hs.env[key], Lin) and nv[1] == hs.env[key][1]: okv[y.t[0][0]] = nv[2]
                    elif nv[0] in ('c', '!'):
                        tr = self.truth(bs, nv); okv[y.t[0][0]] = None if tr is None else const(1 if tr else 0)
                    else: okv[y.t[0][0]] = None
                for c in cand - bad:
                    l = const(c.c)
                    ok = True
                    for sy, k in c.t:
                        if sy in okv:
                            if okv[sy] is None: ok = False; break
                            l = add(l, okv[sy], k)
                        else: l = add(l, sym(sy), k)
                    if not ok or not entails(bs.cons, l): bad.add(c)
            # pointers which change their region lose it
            lost = False
            for bs in backs:
                for v0, y in mods:
                    key = ('v', ch, y.t[0][0][3])
                    hv, nv = hs.env.get(key), bs.env.get(key)
                    if hv is not None and not isinstance(hv, Lin) and hv[0] == 'p':
                        if nv is None or isinstance(nv, Lin) or nv[0] != 'p' or nv[1] != hv[1]:
                            hs.env[key] = y; lost = True
            if not bad and not lost: break
            cand -= bad
        else: raise Limit("no loop invariant for %s" % fr.fn.name)
        self.sink = save + self.sink
        # the invariant without its redundant parts
        kept = []
        basec = frozenset(s.cons)
        for c in sorted(cand, key=lambda c: (len(c.t), abs(c.c), skey(c))):
            if not entails(basec | frozenset(kept), c): kept.append(tighten(c))
        drop = frozenset(tighten(c) for c in cand) - frozenset(kept) - s.cons
        for x in [x for l in outs.values() for x in l] + [x for x, _ in rets] + again: x.cons = x.cons - drop
        seen = set()
        for x in again:
            self.clean(fr, h, x)
            if x.key() in seen: continue
            seen.add(x.key())
            r2, o2, _ = self.loop(fr, h, body, x, depth + 1)
            rets = list(rets) + list(r2)
            for k, v in o2.items(): outs[k] += v
        return rets, outs, backs
    def after_vals(self, fr, mods): return None
    def block_exec(self, fr, b, st, rets):
        fn = fr.fn
        blk = fn.blocks[b]
        cur = [st]
        for eid, e in blk['e']:
            nxt = []
            for s in cur:
                self.forked(s, lambda x: self.element(fr, x, eid, e), nxt)
            cur = nxt
            if not cur: return []
        if b == fn.exit:
            for s in cur:
                v = s.env.pop(('ret', fr.chain), ZERO)
                hook = self.hooks.get('return')
                if hook: hook(self, s, fr, v)
                ch = fr.chain
                s.env = {l: x for l, x in s.env.items() if not (l[0] in ('v', 'r', 'L') and l[1] == ch) and
                         not (l[0] in ('f', 'x') and root(l)[0] == 'v' and root(l)[1] == ch)}
                self.gc(s, v)
                rets.setdefault((s.key(), v), (s, v))
            return []
        succs, t = blk['s'], blk.get('t')
        if blk.get('noret'): return []
        out = []
        if not t or 'c' not in t or len(succs) == 1 and t['k'] != 'SwitchStmt':
            for s in cur:
                for i, x in enumerate(succs):
                    if x is not None: out.append((x, s if i == len(succs) - 1 else s.copy()))
            return out
        for s in cur:
            self.forked(s, lambda x: self.terminator(fr, x, blk, b), out)
        return out
    def forked(self, s, f, out):
        """f on s; on a wrapping conversion f is repeated on each alternative"""
        work = [(s, 0)]
        while work:
            s0, depth = work.pop()
            mark = len(self.sink)
            try:
                self.nosplit = depth > 3
                try: out += f(s0.copy())
                finally: self.nosplit = False
            except Split as x:
                del self.sink[mark:]
                for cons in x.alts:
                    s1 = s0.copy()
                    s1.cons = s1.cons | cons
                    if self.bytes_agree(s1): work.append((s1, depth + 1))
    def bytes_agree(self, s):
        """False when two bytes known to be different would be one and the same byte"""
        bs = set()
        for c in s.cons:
            for x, _ in c.t:
                if isinstance(x, tuple) and x[0] == 'byte': bs.add(x)
        bs = sorted(bs, key=skey)
        extra = set()
        for i, x in enumerate(bs):
            for y in bs[i + 1:]:
                if x[1] == y[1]:
                    d = sub(x[2], y[2])
                    if self.ent(s, d) and self.ent(s, scale(d, -1)): extra.add(sub(sym(x), sym(y))); extra.add(sub(sym(y), sym(x)))
        if infeasible(s.cons | frozenset(extra)): return False
        return True
    def element(self, fr, s, eid, e):
        self.cur = (fr.fn.name, e.get('l'))
        self.steps += 1
        fn = fr.fn
        if self.steps > self.budget: raise Limit("budget exhausted in %s" % fn.name)
        k = e['k']
        if k == 'ex':
            x = e['x']
            if x['k'] == 'call':
                res = self.call(s, fr, x, eid)
                if x.get('noret'): return []
            else: res = [(s, self.ev(s, fr, x))]
            for s2, v in res: s2.env[('r', fr.chain, eid)] = v
            return [s2 for s2, v in res]
        if k == 'decl':
            for d in e['d']:
                if 'id' not in d or 'g' in d: continue
                key = ('v', fr.chain, d['id'])
                if 'x' in d and d['x']['k'] != 'init':
                    v = self.ev(s, fr, d['x'])
                    if bare(d['t']).endswith(']'):
                        if not isinstance(v, Lin) and v[0] == 's':
                            base = self.array_base(s, key, d['t'])
                            s.nul = s.nul | {(base[1], const(len(v[1])))}
                            s.env[('lit', base[1])] = v
                        continue
                    if not isinstance(v, Lin) and v[0] in ('c', '!'): v = self.keepbool(s, fr, v, e)
                    s.env[key] = v
                else:
                    for x in [x for x in s.env if x == key or x[0] in ('f', 'x') and under(x, key)]: del s.env[x]
                    if not bare(d['t']).endswith(']'): s.env[key] = self.fresh(s, ('un', fr.chain, d['id']), d['t'])
            return [s]
        if k == 'ret':
            s.env[('ret', fr.chain)] = self.ev(s, fr, e['x']) if isinstance(e.get('x'), dict) else ZERO
        return [s]
    def terminator(self, fr, s, blk, b):
        fn, succs, t = fr.fn, blk['s'], blk['t']
        out = []
        v = self.ev(s, fr, t['c'])
        if t['k'] == 'SwitchStmt':
            l = self.lin(s, fr, v, ('sw', b))
            rest = [s]
            default = None
            for x in succs:
                if x is None: continue
                tb = fn.blocks[x]
                if 'case' not in tb: default = x; continue
                lo, hi = tb['case']
                nr = []
                for r in rest:
                    m = r.copy()
                    if self.assume(m, add(l, const(-lo))) and self.assume(m, sub(const(hi), l)):
                        if lo == hi == 0: self.note_zero(m, l, ZERO)
                        out.append((x, m))
                    a = r.copy()
                    if self.assume(a, sub(const(lo - 1), l)): nr.append(a)
                    c = r.copy()
                    if self.assume(c, add(l, const(-hi - 1))): nr.append(c)
                rest = nr
            if default is not None:
                for r in rest: out.append((default, r))
            return out
        for idx, truth in ((0, True), (1, False)):
            if idx >= len(succs) or succs[idx] is None: continue
            for s2 in self.branch(s.copy(), v, truth):
                if 'lid' in t: s2.env[('L', fr.chain, t['lid'])] = const(1 if truth else 0)
                out.append((succs[idx], s2))
        return out

class Fr:
    __slots__ = ('fn', 'chain', 'names')
    def __init__(self, fn, chain, names): self.fn, self.chain, self.names = fn, chain, names

def root(l):
    while l[0] in ('f', 'x'): l = l[1]
    return l
def under(l, k):
    while l[0] in ('f', 'x'):
        l = l[1]
        if l == k: return True
    return False
