"""C04: each packet type is decoded to its signal with the fields at their places; nothing else is accepted or refused."""
from absint import *
from facts import AnalysisBroken
import c02, siglib

B = ('sym', 'packet', 0, 'packet')
L = ('sym', 'packet', 1, 'length')
CORE = "milter/core/"
DEC = CORE + "milter-decoder.c"

# ---- linear expressions: dict leaf -> coefficient, None = constant
def lin(v):
    if v[0] == 'i': return {None: v[1]} if v[1] else {}
    if v[0] == '&' and v[1][0] == 'd': return lin(v[1][1])
    if v[0] == '&' and v[1][0] == 'x' and v[1][2][0] == 'i': return plus(lin(addr(v[1][1])), {None: v[1][2][1]})
    if v[0] == '&' and v[1][0] == 'x': return plus(lin(addr(v[1][1])), lin(v[1][2]))
    if v[0] == 'op' and v[1] in '+-': return plus(lin(v[2]), lin(v[3]), 1 if v[1] == '+' else -1)
    if v[0] == 'un' and v[1] == '-': return plus({}, lin(v[2]), -1)
    return {v: 1}
def addr(l): return l[1] if l[0] == 'd' else ('&', l)
def plus(a, b, k=1):
    out = dict(a)
    for x, c in b.items():
        out[x] = out.get(x, 0) + k * c
        if not out[x]: del out[x]
    return out
def T(l): return tuple(sorted(l.items(), key=repr))
def at(*leaves, k=0, base=B):
    out = {base: 1}
    for x in leaves: out = plus(out, {x: 1})
    return plus(out, {None: k} if k else {})
def NUL(ptr): return ('sym', 'nul', T(ptr), 'n')
def loc_addr(loc):
    if loc[0] == 'd': return lin(loc[1])
    if loc[0] == 'x' and loc[1][0] == 'd': return plus(lin(loc[1][1]), lin(loc[2]))
    return None

class Overflow(Exception): pass
def depth(v): return 1 + max((depth(x) for x in v if isinstance(x, tuple)), default=0)

class R(Rule):
    """mon = (emissions, failure seen, empty mandatory field, NUL positions found, loop position, pending pair)"""
    max_depth = 12
    block_cap = 400
    def __init__(self, prog, file, files, bytes_=(), keyword=None, mandatory=(), loop=None, parent=None):
        self.p, self.file, self.files, self.kw, self.parent = prog, file, files, keyword, parent
        self.bytes = {T(l): b for l, b in bytes_}
        self.mandatory = [T(m) for m in mandatory]
        self.loop = loop
        self.decl = siglib.declared(prog)
        self.bad = []
    def init_mon(self): return ((), 0, 0, (), T(self.loop[1]) if self.loop else None, None, (B, L))
    def inline(self, eng, f): return f.file in self.files
    def widen_key(self, eng, st, fr): return frozenset((l, v) for l, v in st.env.items() if l[0] == 'v' and v in (I0, I1))
    def upd(self, st, **k):
        n = ('emits', 'fail', 'zero', 'nuls', 'pos', 'pend', 'keep')
        st.mon = tuple(k.get(x, y) for x, y in zip(n, st.mon))
    def nonnull(self, v): return v[1] == '+' and lin(v).get(B) == 1 or v[0] == 'call' and v[1] in ('copy', 'copyn', 'milter_option_new', 'milter_macros_requests_new', 'g_strsplit')
    def on_load(self, eng, st, fr, loc, node):
        if loc[0] == 'x' and loc[2][0] == 'i' and 0 <= loc[2][1] < 128 and 'g_ascii_table' in repr(loc[1]): st.env[loc] = I(ascii_class(loc[2][1]))
        a = loc_addr(loc)
        if a is None: return
        if T(a) in self.bytes: st.env[loc] = I(self.bytes[T(a)])
        elif eng.cons(st, NUL(a))[0] >= 1 and loc not in st.env: eng.constrain(st, ('ld', loc), ne=0)
    # ---- position in a repeated group, kept relative to a variable across iterations
    def at_loophead(self, eng, st, fr, b):
        pos = st.mon[4]
        if pos is None or pos[:1] == ('rel',): return
        for l, v in sorted(st.env.items(), key=repr):
            if l[0] == 'v' and l[1] == fr.id:
                d = plus(dict(pos), lin(eng.canon(st, v)), -1)
                if len(lin(v)) and all(x is None or x[:2] in (('sym', 'packet'), ('sym', 'param')) for x in d):
                    rest = T(plus({L: 1, B: 1}, dict(pos), -1))
                    self.upd(st, pos=('rel', l, T(d), tuple(m for m, w in sorted(st.env.items(), key=repr) if m[0] == 'v' and m[1] == fr.id and L in lin(w) and T(lin(w)) == rest))); return
    def position(self, st):
        pos = st.mon[4]
        if pos and pos[0] == 'rel':
            v = st.env.get(pos[1])
            return None if v is None else plus(lin(v), dict(pos[2]))
        return dict(pos)
    def from_loophead(self, eng, st, fr, b):
        if st.mon[4] and st.mon[4][0] == 'rel':
            p = self.position(st)
            if p is None: return
            for m in st.mon[4][3]: st.env[m] = unlin2(plus({L: 1, B: 1}, p, -1))
            self.upd(st, pos=T(p))
    def problem(self, node, msg): self.bad.append((node.get('l', 0), msg))
    def find_nul(self, eng, st, node, ptr, ln, fail):
        """outcomes of looking for a NUL in [ptr, ptr + ln): (state, position or None)"""
        a = lin(ptr)
        rest = plus(plus(lin(L), {B: 1}), a, -1)
        if ln is not None and T(lin(ln)) != T(rest): self.problem(node, "a string is searched in a length other than that of the rest of the packet")
        out = []
        s0 = st.copy()
        self.upd(s0, fail=1) if fail else None
        out.append((s0, None))
        n = NUL(a)
        if T(a) in self.mandatory or self.loop and st.mon[5] is None and self.loop[0] == 'pairs' or self.loop and self.loop[0] == 'stages':
            z = st.copy(); self.upd(z, zero=1); self.upd(z, pend='zero')
            out.append((z, I0))
            for f in [f for f in st.facts if f == n]: del st.facts[f]
            eng.constrain(st, n, lo=1)
        else: eng.constrain(st, n, lo=0)
        if not self.loop: self.upd(st, nuls=tuple(dict.fromkeys(st.mon[3] + (n,))))
        out.append((st, n))
        if self.loop:
            for s, v in out:
                if v is not None and v != I0: self.step(eng, s, node, a, n)
        return out
    def step(self, eng, st, node, a, n):
        pend = st.mon[5]
        if depth(('nul', T(a))) > 40: raise Overflow(node.get('l', 0))
        if self.loop[0] == 'pairs':
            if pend is None:
                p = self.position(st)
                if p is None or T(p) != T(a): self.problem(node, "a name isn't read right after the previous value")
                self.upd(st, pend=('key', T(a)))
            elif pend[0] == 'key':
                if T(a) != T(plus(plus(dict(pend[1]), {NUL(dict(pend[1])): 1}), {None: 1})): self.problem(node, "a value isn't read right after its name")
                self.upd(st, pend=('value', pend[1], T(a)), pos=T(plus(plus(a, {n: 1}), {None: 1})))
            else: self.problem(node, "a name and its value aren't put into the table")
        else:
            p = self.position(st)
            if p is None or T(plus(p, {None: 4})) != T(a): self.problem(node, "a symbol list isn't read right after its stage")
            self.upd(st, pend=('list', T(a)), pos=T(plus(plus(a, {n: 1}), {None: 1})))
    def on_call(self, eng, st, fr, name, args, node):
        base = name.replace('_inline', '')
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
        if name == 'milter_decoder_get_buffer': return [(st, B)]
        if name == 'milter_decoder_get_command_length': return [(st, L)]
        if name == 'milter_decoder_decode_null_terminated_value':
            return [(s, I(-1) if v is None else v) for s, v in self.find_nul(eng, st, node, args[0], args[1], True)]
        if name in ('memchr', '__builtin_memchr') and args[1] == I0:
            return [(s, I0 if v is None else eng.mkop(s, '+', args[0], v)) for s, v in self.find_nul(eng, st, node, args[0], args[2], True)]
        if name == 'milter_decoder_check_command_length':
            if T(plus(plus(lin(args[0]), lin(args[1])), at(L), -1)) != (): self.problem(node, "the length checked isn't that of the rest of the packet")
            return self.check(eng, st, lin(args[1]), args[2], args[3], node)
        if name in ('memcpy', 'memmove', '__builtin_memcpy') and args[0][0] == '&':
            eng.store(st, fr, args[0][1], ('call', 'mem', args[1], args[2]), node); return [(st, args[0])]
        if name in ('strcpy', 'strncpy', 'g_strlcpy', '__builtin_strcpy') and args[0][0] == '&':
            eng.store(st, fr, args[0][1], ('call', 'copy', args[1]), node); return [(st, args[0])]
        if name in ('ntohl', 'htonl', '__bswap_32', '__builtin_bswap32'): return [(st, ('call', name, args[0]))]
        if name in ('ntohs', 'htons'): return [(st, ('call', name, args[0]))]
        if name in ('strlen', '__builtin_strlen'):
            if B in lin(args[0]): return [(st, NUL(lin(args[0])))]
            return [(st, ('call', 'strlen', args[0]))]
        if base == 'g_strdup': return [(st, ('call', 'copy', args[0]) if args[0] != I0 else I0)]
        if base in ('g_strndup', 'g_memdup2', 'g_memdup'): return [(st, ('call', 'copyn', args[0], args[1]))]
        if base in ('g_str_has_prefix', 'strncmp', 'memcmp', 'g_ascii_strncasecmp', 'strncasecmp', '__builtin_strncmp'):
            a = args[0] if B in lin(args[0]) else args[1]
            v = ('call', 'prefix', a)
            return [(st, v if base[:2] == 'g_' and base[2] == 's' else eng.mkop(st, '==', v, I0))]
        if base in ('strchr', 'memchr') and args[1] == I(32):
            s2 = st.copy()
            v = eng.fresh(s2, fr, ('space', node['l']), 'space')
            s2.env[eng.deref(eng.mkop(s2, '+', args[0], v))] = I(32)
            return [(st, I0), (s2, eng.mkop(s2, '+', args[0], v))]
        if base in ('atoi', 'strtol', 'strtoul', 'g_ascii_strtoull', 'g_ascii_strtoll') and args[0][:2] in (('call', 'copyn'), ('call', 'copy')):
            a = lin(args[0][2]); n = 3 if args[0][1] == 'copy' else args[0][3][1] if args[0][3][0] == 'i' else 0
            ds = [self.bytes.get(T(plus(a, {None: k}))) for k in range(n)]
            if n and all(d is not None and 48 <= d < 58 for d in ds): return [(st, I(int("".join(map(chr, ds)))))]
            return None
        if base == 'inet_pton':
            s0 = st.copy(); self.upd(s0, fail=1)
            if args[2][0] == '&': st.env[args[2][1]] = ('call', 'pton', args[0], args[1])
            return [(s0, I0), (st, I1)]
        if base in ('g_malloc', 'g_malloc0', 'g_malloc_n', 'malloc', 'calloc'):
            v = eng.fresh(st, fr, ('alloc', node['l']), 'alloc'); eng.constrain(st, v, ne=0); return [(st, v)]
        if name == 'milter_option_new': return [(st, ('call', name) + tuple(args))]
        if name == 'milter_macros_requests_new': return [(st, ('call', name))]
        if name == 'milter_utils_macro_stage_to_command':
            s0 = st.copy(); self.upd(s0, fail=1)
            v = ('call', name, args[0])
            eng.constrain(st, v, ne=0)
            return [(s0, I0), (st, v)]
        if name == 'g_strsplit': return [(st, ('call', name) + tuple(args[:3]))]
        if name == 'milter_macros_requests_set_symbols_string_array':
            pend = st.mon[5]
            if self.loop and self.loop[0] == 'stages':
                ok = pend and pend[0] == 'list' and args[2][:2] == ('call', 'g_strsplit') and T(lin(args[2][2])) == pend[1] and args[2][3] == ('s', ' ') and args[2][4] in (I(-1), I0)
                if ok: ok = args[1][:2] == ('call', 'milter_utils_macro_stage_to_command') and be32(args[1][2], plus(dict(pend[1]), {None: -4}))
                if not ok: self.problem(node, "a macro request isn't recorded with its stage and symbols")
                self.upd(st, pend=None)
            return [(st, I0)]
        if name in ('g_hash_table_insert', 'g_hash_table_replace') and self.loop and self.loop[0] == 'pairs':
            pend = st.mon[5]
            if not (pend and pend[0] == 'value'): self.problem(node, "an entry is put into the table of macros without its name and value read")
            else: self.entry(eng, st, node, dict(pend[1]), dict(pend[2]), args[1], args[2])
            self.upd(st, pend=None)
            return [(st, I1)]
        if self.kw is not None and name in ('g_str_equal', 'strcmp', 'g_strcmp0', 'g_ascii_strcasecmp') and (args[0] == B and args[1][0] == 's' or args[1] == B and args[0][0] == 's'):
            s = args[1] if args[0] == B else args[0]
            e = s[1] == self.kw
            return [(st, I(int(e if name == 'g_str_equal' else not e)))]
        if name == '*decode' and self.parent is not None:
            if self.kw in self.parent:
                self.upd(st, emits=st.mon[0] + (('parent', ()),)); s0 = st.copy()
                self.upd(s0, emits=(), fail=1)
                return [(st, I1), (s0, I0)]
            return [(st, I0)]
        if name in ('g_signal_emit', 'g_signal_emit_by_name'):
            byname = name.endswith('by_name')
            n = args[1][1].split('::')[0].replace('_', '-') if byname and args[1][0] == 's' else siglib.emitted(self.p, fr.fn.file, node)
            rest = args[2 if byname else 3:]
            types = [v for (f, m), v in self.decl.items() if m == n and (byname or f == fr.fn.file)]
            if types: rest = rest[:max(len(t) for t in types)]
            vals = []
            for a in rest:
                fields = ()
                if a[0] == 'sym' and 'alloc' in a[3] or a[0] == '&':
                    bl = eng.deref(a)
                    fields = tuple((path(l, bl), eng.canon(st, v)) for l, v in sorted(st.env.items(), key=repr) if l[0] == 'f' and eng.within(l, bl))
                vals.append((eng.canon(st, a), fields))
            if len(st.mon[0]) < 2: self.upd(st, emits=st.mon[0] + ((n, tuple(vals)),))
            return [(st, I0)]
        return None
    def entry(self, eng, st, node, kp, vp, key, val):
        n = NUL(kp)
        if not whole(val, vp): self.problem(node, "the value put into the table isn't the one read")
        def byte(k):     # value of the k-th byte of the name, from the facts of the state
            for l in (('d', None), ('x', None)): pass
            return None
        first = self.byte_is(eng, st, kp, {}, 123); last = self.byte_is(eng, st, kp, {n: 1, None: -1}, 125)
        stripped = key[:2] == ('call', 'copyn') and T(lin(key[2])) == T(plus(kp, {None: 1})) and T(lin(key[3])) == T({n: 1, None: -2})
        plain = whole(key, kp)
        if first is True and last is True: ok = stripped
        elif first is False or last is False: ok = plain
        else: ok = False
        if not ok: self.problem(node, "the name put into the table isn't the one read (braces removed)")
    def byte_is(self, eng, st, base, off, ch):
        want = T(plus(base, off))
        for f in list(st.facts):
            if f[0] == 'ld':
                a = loc_addr(f[1])
                if a is not None and T(a) == want: 
                    t = eng.truth(st, eng.mkop(st, '==', f, I(ch)))
                    if t is not None: return t
        for l, v in st.env.items():
            a = loc_addr(l) if l[0] in 'dx' else None
            if a is not None and T(a) == want and v[0] == 'i': return v[1] == ch
        return None
    def check(self, eng, st, ln, want, typ, node):
        exact = typ == I(self.p.enum('MILTER_DECODER_COMPARE_EXACT'))
        s0 = st.copy(); self.upd(s0, fail=1)
        out = []
        leaf = [x for x in ln if x is not None]
        if want[0] == 'i' and leaf == [L] and ln[L] == 1:
            n = want[1] - ln.get(None, 0)
            if exact:
                if eng.constrain(st, L, eq=n) is not False: out.append((st, I1))
                if eng.constrain(s0, L, ne=n) is not False: out.append((s0, I0))
            else:
                if eng.constrain(st, L, lo=n) is not False: out.append((st, I1))
                if eng.constrain(s0, L, hi=n - 1) is not False: out.append((s0, I0))
            return out
        if exact and want == I0: self.upd(st, nuls=st.mon[3] + (('exact', T(ln)),))
        return [(st, I1), (s0, I0)]

def ascii_class(c):
    ch = chr(c)
    return sum(1 << k for k, t in enumerate((ch.isalnum(), ch.isalpha(), c < 32 or c == 127, ch.isdigit(), 32 < c < 127, ch.islower(), 32 <= c < 127,
                                             32 < c < 127 and not ch.isalnum(), ch in " \t\n\r\f", ch.isupper(), ch in "0123456789abcdefABCDEF")) if t)
def path(l, base):
    out = []
    while l != base and l[0] in ('f', 'x'):
        out.append(l[2] if l[0] == 'f' else '[]'); l = l[1]
    return ".".join(reversed(out))
def whole(v, ptr):
    """v is the string at ptr: the pointer itself or a full copy of it"""
    if v[:2] == ('call', 'copy'): v = v[2]
    elif v[:2] in (('call', 'copyn'), ('call', 'mem')):
        if T(lin(v[3])) != T({NUL(ptr): 1, None: 1} if v[1] == 'mem' else {NUL(ptr): 1}): return False
        v = v[2]
    return T(lin(v)) == T(ptr)
def at_most(e, st, d, k):
    """a fact of the state bounds d by k"""
    for f, c in st.facts.items():
        for x, top in ([(lin(f), c[1])] + ([(plus(lin(f[2]), lin(f[3]), -1), -1 if f[1] == '<' else 0)] if f[0] == 'op' and f[1] in ('<', '<=') and c[0] == 1 else
                       [(plus(lin(f[3]), lin(f[2]), -1), 0 if f[1] == '<' else -1)] if f[0] == 'op' and f[1] in ('<', '<=') and c[1] == 0 else [])):
            r = plus(d, x, -1)
            if set(r) <= {None} and top + r.get(None, 0) <= k: return True
    return False
def be32(v, ptr):
    leafok = [False]
    for x, y in ((0x01020304, 0x04030201), (0, 0), (0xff, 0xff000000), (0xff00fe01, 0x01fe00ff)):
        def leaf(l):
            if l[:2] == ('call', 'mem') and T(lin(l[2])) == T(ptr) and l[3] == I(4): return x
            return None
        r = c02.fold(v, leaf)
        if r is None or r & 0xffffffff != y: return False
    return True

# ------------------------------------------------------------- argument matchers: f(eng, st, value, fields) -> bool
def s_(*n, k=1): 
    p = at(*n, k=k)
    return lambda e, st, v, f: whole(v, p)
def blk(*n, k=1):
    p = at(*n, k=k)
    return lambda e, st, v, f: T(lin(v)) == T(p)
def num(d): return lambda e, st, v, f: T(lin(v)) == T(d) or e.truth(st, e.mkop(st, '==', v, unlin(d))) is True
def unlin(d):
    out = None
    for x, c in d.items():
        if x is None or c != 1: continue
        out = x if out is None else ('op', '+', out, x)
    k = d.get(None, 0)
    return I(k) if out is None else out if not k else ('op', '+', out, I(k))
def unlin2(d):
    out = unlin(d)
    for x, c in d.items():
        if x is not None and c == -1: out = ('op', '-', out, x)
    return out
def w32(k): return lambda e, st, v, f: be32(v, at(k=k))
def null(e, st, v, f): return v == I0
def const(n): return lambda e, st, v, f: v == I(n) or e.truth(st, e.mkop(st, '==', v, I(n))) is True
def option(e, st, v, f): return v[:2] == ('call', 'milter_option_new') and all(be32(a, at(k=k)) for a, k in zip(v[2:], (1, 5, 9)))
def any_(*ms): return lambda e, st, v, f: any(m(e, st, v, f) for m in ms)

def run(ctx):
    p = ctx.prog
    ctx.explanation = ("The decode virtual function of each decoder class is abstractly interpreted once per packet type over a symbolic packet; "
        "the signal emitted, each argument (as an offset, a terminated string, a block or a big-endian word of the packet) and the reasons for refusing a packet are compared with the protocol.")
    import c01
    primitives(ctx)
    N1 = NUL(at(k=1))
    files = [CORE + "milter-command-decoder.c", CORE + "milter-reply-decoder.c", DEC]
    def go(file, label, cases, **k):
        """cases: [(signal, [matchers])]; empty = always refused"""
        fn = c01.vfunc(p, file, 'decode')
        if fn is None: raise AnalysisBroken("no decode function is installed in %s" % file)
        rule = R(p, file, files if file.startswith(CORE) else [file], **{x: y for x, y in k.items() if x in ('bytes_', 'keyword', 'mandatory', 'loop', 'parent')})
        eng = Engine(p, rule)
        def setup(e, st): st.facts[L] = (1, 2**31 - 1, frozenset())
        try: res = eng.run(fn, setup=setup)
        except Overflow as e:
            ctx.violation("%s:%s:repeated" % (file.split('/')[-1], label), file, e.args[0], "packet type %s: the repeated entries aren't read and recorded one after another" % label)
            return
        ctx.used(eng); ctx.count("packet types")
        V = lambda key, msg, st=None, line=None: ctx.violation("%s:%s:%s" % (file.split('/')[-1], label, key), file, line or fn.line, "packet type %s: %s%s" % (label, msg, " (path %s)" % trace_str(st.trace) if st is not None else ""))
        for l, msg in rule.bad: V(msg[:30], msg, line=l)
        hit = set()
        for st, ret in res:
            t = eng.truth(st, ret)
            emits = st.mon[0]
            ctx.count("outcomes")
            if t is None: V("result", "the result isn't determined", st); continue
            if not t:
                if emits: V("refused", "'%s' is emitted although the packet is refused" % emits[0][0], st)
                elif cases and not st.mon[1] and not st.mon[2] and not (k.get('refuse') and k['refuse'](eng, st)): V("valid-refused", "a well-formed packet is refused", st)
                continue
            if not cases: V("accepted", "the packet is accepted", st); continue
            if st.mon[1]: V("invalid-accepted", "the packet is accepted although a check of its content failed", st)
            if len(emits) != 1: V("emissions", "%s for an accepted packet" % ("no signal is emitted" if not emits else "several signals are emitted"), st); continue
            if k.get('loop') and st.mon[5] is not None: V("pending", "something read isn't recorded", st)
            n, vals = emits[0]
            ok = False
            for c, (sig, ms) in enumerate(cases):
                if n == sig and len(ms) <= len(vals) and all(m(eng, st, v, f) for m, (v, f) in zip(ms, vals)):
                    ok = True; hit.add(c)
            if not ok: V("signal", "'%s'(%s) is emitted instead of '%s' with the fields of the packet" % (n, ", ".join(show(v) for v, f in vals), cases[0][0]), st)
            if k.get('exact') is not None:
                want = k['exact']
                if eng.truth(st, eng.mkop(st, '==', L, I(want))) is not True if isinstance(want, int) else ('exact', T(want)) not in st.mon[3]: V("length", "a packet with extra content is accepted", st)
        for c in range(len(cases)):
            if c not in hit and cases[c][0] is not None: V("missing%d" % c, "'%s' is never emitted with the fields of the packet" % cases[c][0])
    C, RE = CORE + "milter-command-decoder.c", CORE + "milter-reply-decoder.c"
    op = lambda c: (at(), ord(c))
    def cmd(file):
        def f(c, sig, ms=(), **k): go(file, c, [(sig, list(ms))], bytes_=[op(c)] + list(k.pop('more', [])), **k)
        return f
    f = cmd(C)
    S1 = dict(mandatory=[at(k=1)])
    f('O', 'negotiate', [option], exact=13)
    for c, n in (('H', 'helo'), ('M', 'envelope-from'), ('R', 'envelope-recipient'), ('U', 'unknown')): f(c, n, [s_()], **S1)
    for c, n in (('T', 'data'), ('N', 'end-of-header'), ('A', 'abort'), ('Q', 'quit')): f(c, n, exact=1)
    f('L', 'header', [s_(), s_(N1, k=2)], **S1)
    f('B', 'body', [blk(), num({L: 1, None: -1})])
    go(C, 'E', [('end-of-message', [blk(), num({L: 1, None: -1})]), ('end-of-message', [eom_null, const(0)])], bytes_=[op('E')])
    # connect
    N2 = NUL(at(N1, k=5))
    fam = at(N1, k=2)
    def address(family, want):
        def m(e, st, v, fl):
            d = dict(fl)
            for x, w in want.items():
                if x not in d or not w(e, st, d[x]): return False
            return True
        return m
    port = lambda e, st, v: v[:2] == ('call', 'mem') and T(lin(v[2])) == T(at(N1, k=3)) and v[3] == I(2)
    pton = lambda af: lambda e, st, v: v[:3] == ('call', 'pton', I(af)) and T(lin(v[3])) == T(at(N1, k=5))
    def pton6(e, st, v):
        if v[:3] != ('call', 'pton', I(10)): return False
        pre = None
        for f, c in st.facts.items():
            if f[:2] == ('call', 'prefix') and T(lin(f[2])) == T(at(N1, k=5)): pre = e.truth(st, f)
        if pre is None and not any(f[0] == 'op' and f[1] in ('<', '<=') and N2 in f[2:4] for f in st.facts) and e.cons(st, N2)[1] > 4: return False
        return T(lin(v[3])) == T(at(N1, k=10 if pre else 5))
    isc = lambda n: lambda e, st, v: v == I(n)
    path_ = lambda e, st, v: whole(v, at(N1, k=5))
    long_ = lambda e, st: e.cons(st, N2)[0] >= 108 or e.cons(st, unlin({N2: 1, None: 1}))[0] > 108
    M2 = [at(k=1), at(N1, k=5)]
    for ch, fields, size, kk in (('4', {'sin_family': isc(2), 'sin_port': port, 'sin_addr': pton(2)}, 16, {}),
                                 ('6', {'sin6_family': isc(10), 'sin6_port': port, 'sin6_addr': pton6}, 28, {}),
                                 ('L', {'sun_family': isc(1), 'sun_path': path_}, 110, dict(refuse=long_)),
                                 ('U', {'sa_family': isc(0)}, None, dict(exact=plus(lin(L), {N1: 1, None: 3}, -1)))):
        go(C, 'C/' + ch, [('connect', [s_(), address(ch, fields)] + ([const(size)] if size else []))], bytes_=[op('C'), (fam, ord(ch))], mandatory=M2, **kk)
    go(C, 'C/other', [], bytes_=[op('C'), (fam, ord('5'))], mandatory=M2)
    # macros
    table = lambda e, st, v, fl: v[0] in ('sym', 'call')
    for ch in "CHMRTLNBEU":
        go(C, 'D/' + ch, [('define-macro', [const(ord(ch)), table])], bytes_=[op('D'), (at(k=1), ord(ch))], loop=('pairs', at(k=2)))
    for ch in "OQ?":
        go(C, 'D/' + ch, [], bytes_=[op('D'), (at(k=1), ord(ch))], loop=('pairs', at(k=2)))
    for ch in "Xacz": go(C, ch, [], bytes_=[op(ch)])
    # replies
    f = cmd(RE)
    for c, n in (('c', 'continue'), ('t', 'temporary-failure'), ('r', 'reject'), ('a', 'accept'), ('d', 'discard'), ('p', 'progress'), ('f', 'connection-failure'), ('4', 'shutdown'), ('s', 'skip')):
        f(c, n, exact=1)
    f('h', 'add-header', [s_(), s_(N1, k=2)], **S1)
    NI = NUL(at(k=5))
    val = s_(NI, k=6)
    VI = NUL(at(NI, k=6))
    emp = lambda e, st: e.truth(st, VI) is False
    SI = dict(mandatory=[at(k=5)])
    vmaybe = lambda e, st, v, fl: val(e, st, v, fl) or v == I0 and emp(e, st)
    f('i', 'insert-header', [w32(1), s_(k=5), vmaybe], **SI)
    vfull = lambda e, st, v, fl: val(e, st, v, fl) and not emp(e, st)
    del_ = lambda e, st, v, fl: w32(1)(e, st, v, fl) and emp(e, st)
    go(RE, 'm', [('change-header', [s_(k=5), w32(1), vfull]), ('delete-header', [s_(k=5), del_])], bytes_=[op('m')], **SI)
    absent = lambda e, st, v, fl: v == I0 and at_most(e, st, {L: 1, N1: -1, None: -2}, 0)
    two = [at(k=1), at(N1, k=2)]
    go(RE, 'e', [('change-from', [s_(), s_(N1, k=2)]), ('change-from', [s_(), absent])], bytes_=[op('e')], mandatory=two)
    go(RE, '+', [('add-recipient', [s_(), null])], bytes_=[op('+')], **S1)
    go(RE, '2', [('add-recipient', [s_(), s_(N1, k=2)]), ('add-recipient', [s_(), absent])], bytes_=[op('2')], mandatory=two)
    f('-', 'delete-recipient', [s_()], **S1)
    f('q', 'quarantine', [s_()], **S1)
    f('b', 'replace-body', [blk(), num({L: 1, None: -1})])
    req = any_(null, lambda e, st, v, fl: v == ('call', 'milter_macros_requests_new'))
    f('O', 'negotiate-reply', [option, req], loop=('stages', at(k=13)))
    for a, b, c in (('4', '5', '1'), ('5', '5', '0'), ('4', '0', '9'), ('5', '9', '0')):
        for sp in (' ', 'x'):
            k0 = 5 if sp == ' ' else 4
            go(RE, 'y/%s%s%s%s' % (a, b, c, sp), [('reply-code', [const(int(a + b + c)), ext(k0, True), msg(k0)]), ('reply-code', [const(int(a + b + c)), ext(k0, False), null])],
               bytes_=[op('y')] + [(at(k=1 + n), ord(x)) for n, x in enumerate(a + b + c + sp)], mandatory=[at(k=1)])
    for code in ("350", "200", "650", "4x0", "45x", "x50", "4/0", "5:0", "40/", "50:"):
        go(RE, 'y/' + code, [], bytes_=[op('y')] + [(at(k=1 + n), ord(x)) for n, x in enumerate(code)], mandatory=[at(k=1)])
    for ch in "XCzl": go(RE, ch, [], bytes_=[op(ch)])
    # manager
    M = "milter/manager/milter-manager-"
    N0 = NUL(at())
    cont, clen = at(N0, k=1), {L: 1, N0: -1, None: -1}
    cb = lambda e, st, v, fl: T(lin(v)) == T(cont)
    cn = num(clen)
    msgc = lambda e, st, v, fl: v[:2] == ('call', 'copyn') and T(lin(v[2])) == T(cont) and T(lin(v[3])) == T(clen)
    def mgr(file, kw, sig, ms, **k): go(M + file, kw, [(sig, ms)] if sig else [], keyword=kw, mandatory=[at()] + k.pop('mand', []), **k)
    f_ = "control-command-decoder.c"
    mgr(f_, "set-configuration", "set-configuration", [cb, cn])
    for kw in ("get-configuration", "reload", "get-status"): mgr(f_, kw, kw, [], exact=clen)
    mgr(f_, "other", None, [])
    f_ = "reply-decoder.c"
    mgr(f_, "success", "success", [], exact=clen); mgr(f_, "failure", "failure", [msgc]); mgr(f_, "error", "error", [msgc]); mgr(f_, "other", None, [])
    f_ = "control-reply-decoder.c"
    par = ("success", "failure", "error")
    for kw in par: mgr(f_, kw, "parent", [], parent=par)
    mgr(f_, "configuration", "configuration", [cb, cn], parent=par); mgr(f_, "other", None, [], parent=par)
    f_ = "launch-command-decoder.c"
    NC = NUL(cont)
    user = plus(plus(cont, {NC: 1}), {None: 1}); ulen = plus(plus(clen, {NC: 1}, -1), {None: -1})
    um = lambda e, st, v, fl: v[:2] == ('call', 'copyn') and T(lin(v[2])) == T(user) and T(lin(v[3])) == T(ulen)
    cmdl = lambda e, st, v, fl: whole(v, cont)
    go(M + f_, "launch", [("launch", [cmdl, um]), ("launch", [cmdl, null])], keyword="launch", mandatory=[at(), cont])
    mgr(f_, "other", None, [])
    ctx.floor("packet types", 90); ctx.floor("outcomes", 200)
    ctx.assume("strings in a packet end at their first NUL; glib and libc string functions behave as documented; bounds of the accesses are C01's part")

def eom_null(e, st, v, f): return (v == I0 or T(lin(v)) == T(at(k=1))) and e.truth(st, e.mkop(st, '==', L, I1)) is True
def spacepos(e, st, v, k0):
    """length up to a space at k0 + length"""
    want = plus(at(k=k0), lin(v))
    for f, c in st.facts.items():
        if f[0] == 'ld' and loc_addr(f[1]) is not None and T(loc_addr(f[1])) == T(want): return e.truth(st, e.mkop(st, '==', f, I(32))) is True
    for l, x in st.env.items():
        if l[0] in 'dx' and loc_addr(l) is not None and T(loc_addr(l)) == T(want): return x == I(32)
    return False
def ext(k0, spaced):
    def m(e, st, v, f):
        if not spaced: return whole(v, at(k=k0))
        return v[:2] == ('call', 'copyn') and T(lin(v[2])) == T(at(k=k0)) and spacepos(e, st, v[3], k0)
    return m
def msg(k0):
    def m(e, st, v, f):
        if v[:2] == ('call', 'copy'): v = v[2]
        d = plus(plus(lin(v), at(k=k0), -1), {None: -1})
        if B in d: return False
        return spacepos(e, st, unlin(d), k0)
    return m
def show(v):
    if v[:2] == ('call', 'copy'): return "copy of " + show(v[2])
    d = lin(v)
    if B in d: return "packet" + "".join("%+d" % c if x is None else "+…" for x, c in d.items() if x != B)
    return str(v[1]) if v[0] in 'is' else v[1] if v[0] == 'call' else v[0]

def primitives(ctx):
    """the two shared checks every decoder relies on"""
    p = ctx.prog
    fn = p.need('milter_decoder_check_command_length', DEC)
    lt, le = p.enum('MILTER_DECODER_COMPARE_AT_LEAST'), p.enum('MILTER_DECODER_COMPARE_EXACT')
    class Q(Rule):
        def inline(self, eng, f): return f.file == DEC
        def init_mon(self): return 0
        def on_call(self, eng, st, fr, name, args, node):
            if name == 'milter_logger_get_interesting_level': return [(st, I0)]
            if name in ('g_set_error', 'g_set_error_literal', 'g_propagate_error'): st.mon = 1
            if name in ('memchr',) and args[1] == I0:
                s = st.copy(); v = NUL(lin(args[0])); eng.constrain(s, v, lo=0)
                return [(st, I0), (s, eng.mkop(s, '+', args[0], v))]
            return None
    for typ, ok in ((lt, lambda a, b: a >= b), (le, lambda a, b: a == b)):
        for a, b in ((0, 0), (0, 1), (1, 0), (3, 4), (4, 4), (5, 4), (-1, 0), (-1, 4)):
            eng = Engine(p, Q())
            names = [q['n'] for q in fn.params]
            for st, v in eng.run(fn, {names[1]: I(a), names[2]: I(b), names[3]: I(typ)}):
                ctx.count("primitive cases")
                t = eng.truth(st, v)
                if t is not ok(a, b) or t and st.mon or not t and not st.mon:
                    ctx.violation("check-length:%d:%d:%d" % (typ, a, b), DEC, fn.line, "a length of %d checked for %s %d: %s" % (a, "at least" if typ == lt else "exactly", b, "accepted" if t else "refused" + ("" if st.mon else " without an error")))
            ctx.used(eng)
    fn = p.need('milter_decoder_decode_null_terminated_value', DEC)
    names = [q['n'] for q in fn.params]
    buf = ('sym', 'param', names[0], 0)
    class F(Q):
        """the bytes of the buffer are unknown; mon = (error set, bytes known to be zero / non-zero)"""
        def init_mon(self): return (0, ())
        def nonnull(self, v): return v[0] == 'op' and v[1] == '+' and lin(v).get(buf) == 1
        def widen_key(self, eng, st, fr): return (frozenset((l, v) for l, v in st.env.items() if l[0] == 'v'), st.mon)
        def on_load(self, eng, st, fr, loc, node):
            a = loc_addr(loc)
            if a is None or a.get(buf) != 1: return
            i = plus(a, {buf: 1}, -1)
            if any(x is not None for x in i): ctx.violation("find-nul:index", DEC, node.get('l', fn.line), "a byte at an unknown place is looked at")
            elif not 0 <= i.get(None, 0) < self.n: ctx.violation("find-nul:range", DEC, node.get('l', fn.line), "byte %d of a string of at most %d is looked at" % (i.get(None, 0), self.n))
        def on_call(self, eng, st, fr, name, args, node):
            if name in ('g_set_error', 'g_set_error_literal', 'g_propagate_error'): st.mon = (1, st.mon[1]); return [(st, I0)]
            if name in ('memchr', '__builtin_memchr') and args[0] == buf and args[1] == I0:
                if args[2] != I(self.n): ctx.violation("find-nul:range", DEC, node.get('l', fn.line), "a string is searched beyond its length")
                out = [(st.copy(), I0)]
                for k in range(self.n):
                    s = st.copy(); s.mon = (s.mon[0], (k,)); out.append((s, eng.mkop(s, '+', buf, I(k))))
                out[0][0].mon = (0, (self.n,))
                return out
            if name in ('strnlen', '__builtin_strnlen') and args[0] == buf and args[1] == I(self.n):
                out = []
                for k in range(self.n + 1):
                    s = st.copy(); s.mon = (s.mon[0], (k,)); out.append((s, I(k)))
                return out
            return Q.on_call(self, eng, st, fr, name, args, node)
    def byte(eng, st, k):
        if st.mon[1]: return 0 if k == st.mon[1][0] else 1 if k < st.mon[1][0] else None
        want = T({buf: 1, None: k} if k else {buf: 1})
        for f in st.facts:
            if f[0] == 'ld' and loc_addr(f[1]) is not None and T(loc_addr(f[1])) == want: return {True: 1, False: 0}.get(eng.truth(st, f))
        for l, v in st.env.items():
            if l[0] in 'dx' and loc_addr(l) is not None and T(loc_addr(l)) == want: return {True: 1, False: 0}.get(eng.truth(st, v))
    for n in range(5):
        r = F(); r.n = n
        eng = Engine(p, r)
        got = set()
        for st, v in eng.run(fn, {names[1]: I(n)}, setup=lambda e, st: e.constrain(st, buf, ne=0)):
            ctx.count("primitive cases")
            if v[0] != 'i':
                ctx.violation("find-nul:result", DEC, fn.line, "the position returned isn't known (%s)" % trace_str(st.trace)); continue
            pos = v[1]
            got.add(pos)
            if pos == -1:
                if not all(byte(eng, st, k) == 1 for k in range(n)): ctx.violation("find-nul:missed", DEC, fn.line, "a NUL is reported missing although not every byte was looked at")
                if not st.mon[0]: ctx.violation("find-nul:error", DEC, fn.line, "a missing NUL is reported without an error")
            else:
                if byte(eng, st, pos) != 0: ctx.violation("find-nul:result", DEC, fn.line, "the position returned isn't that of a NUL")
                if not all(byte(eng, st, k) == 1 for k in range(pos)): ctx.violation("find-nul:first", DEC, fn.line, "the position returned isn't that of the first NUL")
                if st.mon[0]: ctx.violation("find-nul:error", DEC, fn.line, "an error is set although a NUL was found")
        if got - {-1} != set(range(n)) or -1 not in got: ctx.violation("find-nul:cases", DEC, fn.line, "among %d bytes, a NUL is found at %s" % (n, sorted(got)))
        ctx.used(eng)
