"""C03: every encoder produces exactly the packet of the protocol: length prefix, opcode, fields."""
import re
from absint import *
from facts import AnalysisBroken
import c02

ENC = "milter/core/milter-encoder.c"
BE = (0x01020304, 0x04030201)
CLEAR = ('g_string_truncate', 'g_string_set_size', 'g_string_assign', 'g_string_erase', 'g_string_truncate_inline', 'g_string_assign_inline', 'g_string_erase_inline')

def P(n): return ('sym', 'param', None, n)

class Overflow(Exception): pass

class R(Rule):
    """mon = (content items, list element not yet encoded, its value, macros enumerated)"""
    max_depth = 11
    block_cap = 200
    def __init__(self, ctx, files, fn, ptr=0, old=(('OLD',),)):
        self.ctx, self.files, self.fn = ctx, files, fn
        self.buf = None
        self.old = old
    def init_mon(self): return (self.old, None, None, 0)
    def pend(self, st, K, V=None): st.mon = (st.mon[0], K, V, st.mon[3])
    def inline(self, eng, f): return f.file in self.files
    def widen_key(self, eng, st, fr): return frozenset((l, v) for l, v in st.env.items() if l[0] == 'v' and v in (I0, I1))
    def isbuf(self, v):
        if self.buf is not None: return v == self.buf
        return v[0] == 'ld' and v[1][0] == 'f' and v[1][2] == 'buffer' and v[1][1][0] == 'd' and v[1][1][1][0] == 'priv' and v[1][1][1][2] == 'milterencoder'
    def put(self, eng, st, buf, items):
        items = tuple(items)
        if st.mon[1] is not None and ('s', st.mon[1]) in items: self.pend(st, None, st.mon[2])
        items = self.collapse(eng, st, items)
        if ('too-long',) in items or sum(1 for i in items if i[0] != 'c' or i[1] == I0) > 7: raise Overflow(show(items))
        st.mon = (items,) + st.mon[1:]
        d = ('d', buf)
        r = repr(items)
        for f in ('len', 'str'): st.env[('f', d, f)] = ('sym', 'buf', r, f)
    # ---- items
    def text(self, s): return [('c', I(b)) for b in s.encode('latin-1', 'replace')]
    def item_str(self, v):
        if v[0] == 's': return self.text(v[1])
        if v[0] == '&':
            return [('ntop', v[2])] if len(v) > 2 else [('s', v)]
        return [('s', v)]
    def str_of(self, eng, st, v):
        if v[0] == '&':
            w = st.env.get(v[1])
            if w is not None and w[0] == 'ntop': return [w]
            if w is not None and w[0] == 's': return self.text(w[1])
        return self.item_str(v)
    def mem_of(self, eng, st, v, n):
        if n == I(-1) or n[0] == 'call' and n[1] == 'strlen' and n[2] == v: return self.str_of(eng, st, v)
        if v[0] == 's' and n[0] == 'i': return self.text((v[1] + "\0" * 64)[:n[1]])
        if v[0] == '&' and n[0] == 'i':
            w = st.env.get(v[1])
            if w is None or w[0] in ('sym', 'init'):
                els = [st.env.get(('x', v[1], I(k))) for k in range(min(n[1], 16))]
                if w is not None and w[0] == 'init': els = [e or I0 for e in els]
                if all(e is not None for e in els): return [('c', e) for e in els]
            if w is not None and w[0] == 'mem':
                if w[2] != n: return [('cut', w, n)]
                w = w[1]
            elif w is None: w = eng.read(st, v[1])
            c = c02.fold(w, lambda x: None)
            if c is not None: return [('c', I((c >> (8 * k)) & 255)) for k in range(n[1])]
            return [('w', w, n[1])]
        if n == I0: return []
        return [('b', v, n)]
    def collapse(self, eng, st, items):
        out = list(items)
        # macro group at the end: K 0 [value] 0
        if len(out) >= 3 and out[-1] == ('c', I0):
            for glen in (6, 5, 4, 3):
                if len(out) < glen + 1: continue
                g = out[-glen:]
                ok = self.group(eng, st, g)
                if ok:
                    out = out[:-glen] + ([('G', ok)] if not (len(out) > glen and out[-glen - 1] == ('G', ok)) else [])
                    break
        if len(out) >= 2 and out[-2] == ('c', I(32)) and out[-1][0] == 's' and self.elem(out[-1][1]):
            out = out[:-2] + ([] if len(out) > 2 and out[-3] == ('M',) else [('M',)])
        return tuple(out)
    def elem(self, v): return v[0] == 'ld' and v[1][0] == 'f' and v[1][2] == 'data' or v[0] == 'sym' and v[3] == 'elem'
    def group(self, eng, st, g):
        k = 0
        braces = g[0] == ('c', I(123))
        if braces: k = 1
        if k >= len(g) or g[k][0] != 's' or not self.elem(g[k][1]): return None
        K = g[k][1]; k += 1
        if braces:
            if g[k] != ('c', I(125)): return None
            k += 1
        if k >= len(g) or g[k] != ('c', I0): return None
        k += 1
        table = None
        if k < len(g) and g[k][0] == 's':
            v = g[k][1]
            if v[0] == 'call' and v[1] == 'g_hash_table_lookup' and v[3] == K: table = v[2]
            elif v[0] == 'sym' and v[3] == 'elemvalue' and v[2] == K[2]: table = v[1]
            else: return None
            k += 1
        if k != len(g) - 1 or g[k] != ('c', I0): return None
        if empty(eng, st, K) is not False: return None
        first = eng.truth(st, eng.mkop(st, '==', char(eng, st, K, 0), I(123)))
        one = eng.truth(st, eng.mkop(st, '==', char(eng, st, K, 1), I0))
        if one is None: one = eng.truth(st, eng.mkop(st, '==', ('call', 'strlen', K), I1))
        if braces and (first is not False or one is not False): return None
        if not braces and not (first is True or one is True): return None
        if st.mon[1] == K: self.pend(st, None)
        return table or self.group_without_value(eng, st, K) or 'no-value'
    def group_without_value(self, eng, st, K):
        for f, c in st.facts.items():
            if f[0] == 'call' and f[1] == 'g_hash_table_lookup' and f[3] == K and eng.truth(st, f) is False: return f[2]
            if f[0] == 'sym' and f[3] == 'elemvalue' and f[2] == K[2] and eng.truth(st, f) is False: return f[1]
        for l, v in st.env.items():
            pass
        return None
    def advance(self, eng, st, node):
        K = st.mon[1]
        if K is not None and empty(eng, st, K) is not True:
            self.ctx.violation("%s:element-skipped" % self.fn.name, self.fn.file, node.get('l', self.fn.line), "an element of the list isn't put into the packet (path %s)" % trace_str(st.trace))
        self.pend(st, None)
    def on_load(self, eng, st, fr, loc, node):
        if loc[0] == 'f' and loc[2] == 'data' and node.get('rec', '').endswith('GList') and st.mon[1] is None and fr.fn.file in self.files and self.track(eng, st, fr):
            self.pend(st, ('ld', loc))
        elif loc[0] == 'f' and loc[2] == 'next' and node.get('rec', '').endswith('GList'): self.advance(eng, st, node)
    def track(self, eng, st, fr): return True
    def on_call(self, eng, st, fr, name, args, node):
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
        if name in ('g_hash_table_get_keys', 'g_hash_table_iter_init', 'g_hash_table_foreach'):
            v = args[1] if name == 'g_hash_table_iter_init' else args[0]
            if v[:2] == ('sym', 'param'): st.mon = st.mon[:3] + (1,)
        if name == '__builtin_constant_p': return [(st, I0)]
        if name in ('ntohl', 'htonl', '__bswap_32', '__builtin_bswap32'): return [(st, ('call', name, args[0]))]
        if name in ('ntohs', 'htons', '__bswap_16', '__builtin_bswap16'): return [(st, ('call', name, args[0]))]
        if name in ('strlen', 'g_hash_table_lookup', 'g_hash_table_size', 'milter_option_get_version', 'milter_option_get_action', 'milter_option_get_step', 'milter_utils_command_to_macro_stage'):
            if name == 'strlen' and args[0][0] == 's': return None
            return [(st, ('call', name) + tuple(args))]
        if name == 'g_bytes_get_data':
            if args[1][0] == '&': st.env[args[1][1]] = ('call', 'g_bytes_get_size', args[0])
            return [(st, ('call', 'g_bytes_get_data', args[0]))]
        if name == 'g_bytes_get_size': return [(st, ('call', 'g_bytes_get_size', args[0]))]
        if name in ('memcpy', 'memmove', '__builtin_memcpy') and args[0][0] == '&':
            src = args[1]
            if src[0] == '&':
                w = st.env.get(src[1])
                if w is None: w = eng.read(st, src[1])
                eng.store(st, fr, args[0][1], w if w[0] == 'mem' else ('mem', w, args[2]), node)
            else: eng.store(st, fr, args[0][1], ('mem', ('ld', ('d', src)), args[2]), node)
            return [(st, args[0])]
        if name in ('memset', '__builtin_memset', 'bzero', 'explicit_bzero') and args[0][0] == '&':
            z = args[1] if 'set' in name else I0
            n = args[2] if 'set' in name else args[1]
            eng.store(st, fr, args[0][1], ('mem', z if z == I0 else ('op', 'set', z, n), n), node)
            return [(st, args[0])]
        if name == 'inet_ntop' and args[2][0] == '&':
            eng.store(st, fr, args[2][1], ('ntop', args[0], args[1]), node)
            return [(st, args[2])]
        if name in ('g_hash_table_iter_next',):
            self.advance(eng, st, node)
            out = [(st.copy(), I0)]
            i = eng.fresh(st, fr, ('iter', node['l']), 'iter')
            tab = st.env.get(args[0][1]) if args[0][0] == '&' else None
            tab = tab[1] if tab is not None and tab[0] == 'iter' else ('?',)
            K = ('sym', tab, ('iter', node['l']), 'elem')
            for f in [f for f in st.facts if val_mentions(f, lambda v: v[:1] == ('sym',) and v[2:3] == K[2:3])]: del st.facts[f]
            if args[1][0] == '&': st.env[args[1][1]] = K
            if args[2][0] == '&': st.env[args[2][1]] = ('sym', tab, K[2], 'elemvalue')
            self.pend(st, K, ('sym', tab, K[2], 'elemvalue'))
            return out + [(st, I1)]
        if name == 'g_hash_table_iter_init' and args[0][0] == '&':
            st.env[args[0][1]] = ('iter', args[1]); return [(st, I0)]
        if name in ('g_list_foreach', 'g_slist_foreach', 'g_hash_table_foreach') and args[1][0] == 'fn':
            g = self.ctx.prog.resolve(args[1][1], fr.fn.file)
            if g is None: return None
            out = [(st.copy(), I0)]
            cur = [st]
            for rnd in range(2):
                nxt = []
                for s in cur:
                    K = ('sym', args[0], ('each', node['l'], rnd), 'elem')
                    self.pend(s, K, ('sym', args[0], K[2], 'elemvalue'))
                    a = [K, args[2]] if 'list' in name else [K, ('sym', args[0], K[2], 'elemvalue'), args[2]]
                    for s2, v in eng.call_fn(s, fr, g, a):
                        self.advance(eng, s2, node)
                        out.append((s2.copy(), I0)); nxt.append(s2)
                cur = nxt
            return out
        if name == 'milter_macros_requests_foreach':
            self.ctx.count("macro request callbacks")
            if args[1][0] == 'fn': self.callbacks.add(args[1][1])
            self.put(eng, st, args[2], st.mon[0] + (('req', args[0]) if self.isbuf(args[2]) else ('req?',),))
            return [(st, I0)]
        if args and name.startswith('g_string_') and self.isbuf(args[0]):
            self.ctx.count("buffer operations")
            b, base = args[0], name.replace('_inline', '')
            c = st.mon[0]
            if base in ('g_string_truncate', 'g_string_set_size') and args[1] == I0: self.put(eng, st, b, ())
            elif base == 'g_string_erase' and args[1] == I0 and args[2][0] in 'iu' and args[2] == I(-1): self.put(eng, st, b, ())
            elif base == 'g_string_assign': self.put(eng, st, b, self.str_of(eng, st, args[1]))
            elif base == 'g_string_append_c': self.put(eng, st, b, c + (('c', args[1]),))
            elif base == 'g_string_append': self.put(eng, st, b, c + tuple(self.str_of(eng, st, args[1])))
            elif base == 'g_string_append_len': self.put(eng, st, b, c + tuple(self.mem_of(eng, st, args[1], args[2])))
            elif base == 'g_string_prepend_len': self.put(eng, st, b, tuple(self.mem_of(eng, st, args[1], args[2])) + c)
            elif base == 'g_string_prepend_c': self.put(eng, st, b, (('c', args[1]),) + c)
            elif base == 'g_string_insert_len' and args[1] == I0: self.put(eng, st, b, tuple(self.mem_of(eng, st, args[2], args[3])) + c)
            elif base == 'g_string_append_printf' and args[1][0] == 's': self.put(eng, st, b, c + tuple(self.printf(eng, st, args[1][1], args[2:])))
            else: self.put(eng, st, b, c + (('unknown operation', base),))
            return [(st, b)]
        return None
    def printf(self, eng, st, fmt, args):
        out, k = [], 0
        for m in re.finditer(r'%([sc%])|%.|[^%]', fmt, re.S):
            t = m.group(0)
            if t == '%%': out += self.text('%')
            elif t == '%s': out += self.str_of(eng, st, args[k]); k += 1
            elif t == '%c': out.append(('c', args[k])); k += 1
            elif t[0] == '%': out.append(('format', t))
            else: out += self.text(t)
        return out
    callbacks = set()

def char(eng, st, v, k):
    return eng.read(st, ('x', ('d', v), I(k)) if k else eng.deref(v))
STRCMP = (('strcmp', False), ('g_strcmp0', False), ('g_str_equal', True))
def strcmps(eng, st, v, em):
    return all(eng.assume(st, ('call', nm, v, ('s', '')), em is eqv) and eng.assume(st, ('call', nm, ('s', ''), v), em is eqv) for nm, eqv in STRCMP)
def empties(eng, st, v):
    return [char(eng, st, v, 0), ('call', 'strlen', v)]
def empty(eng, st, v):
    """is the string v empty (or NULL)?"""
    if v[0] == 's': return v[1] == ''
    if eng.truth(st, v) is False: return True
    for x in empties(eng, st, v):
        t = eng.truth(st, x)
        if t is not None: return not t
    for nm, zero in (('strcmp', True), ('g_strcmp0', True), ('g_str_equal', False)):
        t = eng.truth(st, ('call', nm, v, ('s', '')))
        if t is not None: return t is not zero
    return None

# ---------------------------------------------------------------- conditions
def null(v): return lambda e, s: e.assume(s, v, False)
def nonnull(v): return lambda e, s: e.assume(s, v, True)
def isempty(v): return lambda e, s: e.assume(s, v, True) and all(e.assume(s, x, False) for x in empties(e, s, v)) and strcmps(e, s, v, True)
def filled(v): return lambda e, s: e.assume(s, v, True) and all(e.assume(s, x, True) for x in empties(e, s, v)) and strcmps(e, s, v, False)
def iszero(v): return lambda e, s: e.assume(s, e.mkop(s, '==', v, I0), True)
def nonzero(v): return lambda e, s: e.assume(s, e.mkop(s, '==', v, I0), False)
def eq(v, n): return lambda e, s: e.assume(s, e.mkop(s, '==', v, I(n)), True)
def ne(v, n): return lambda e, s: e.assume(s, e.mkop(s, '==', v, I(n)), False)
def gt(v, n): return lambda e, s: e.constrain(s, v, lo=n + 1) is not False if v[0] != 'i' else v[1] > n
def le(v, n): return lambda e, s: (e.constrain(s, v, hi=n) is not False) if v[0] != 'i' else v[1] <= n

NONE = 'no packet'
def S(v): return ('s', v)
def Z(*items):
    """items followed by NUL each when strings"""
    out = []
    for i in items:
        if isinstance(i, str): out += [('c', I(b)) for b in i.encode()]
        elif isinstance(i, int): out.append(('c', I(i)))
        else: out.append(i)
    return out

def same(eng, st, a, b):
    """actual item a, expected item b"""
    if a == b: return True
    if a[0] == 'c' and b[0] == 'c': return eng.truth(st, eng.mkop(st, '==', a[1], b[1])) is True or a[1][0] == 'i' and b[1][0] == 'i' and (a[1][1] - b[1][1]) % 256 == 0
    if a[0] == 'w' and b[0] == 'be32' and a[2] == 4: return big_endian(eng, st, a[1], b[1])
    if a[0] == 'b' and b[0] == 'b' and a[1] == b[1]: return eng.truth(st, eng.mkop(st, '==', a[2], b[2])) is True
    if a[0] == 's' and b[0] == 's': return eng.canon(st, a[1]) == eng.canon(st, b[1])
    return False

def big_endian(eng, st, v, leaf):
    for x, y in (BE, (0, 0), (0xff, 0xff000000), (0xff00fe01, 0x01fe00ff)):
        r = c02.fold(v, lambda l: x if l == leaf else None)
        if r is None or r & 0xffffffff != y: return False
    return True

def norm(eng, st, items):
    out = []
    for i in items:
        if i[0] == 's' and empty(eng, st, i[1]) is True: continue
        if i[0] == 'b' and eng.truth(st, eng.mkop(st, '==', i[2], I0)) is True: continue
        if i[0] == 's' and i[1][0] == 's': out += Z(i[1][1]); continue
        out.append(i)
    return out

def show(items):
    if items == NONE: return items
    out = []
    for i in items:
        if i[0] == 'c' and i[1][0] == 'i': out.append(repr(chr(i[1][1] & 255)) if 32 < i[1][1] < 127 else "\\%d" % i[1][1])
        else: out.append(i[0] + "(" + ",".join(nm(x) for x in i[1:]) + ")")
    return " ".join(out) or "nothing"
def nm(v):
    if isinstance(v, tuple):
        if v[:2] == ('sym', 'param'): return v[2]
        if v[0] == 'i': return str(v[1])
        if v[0] == 'ld': return nm(v[1])
        if v[0] == 'f': return nm(v[1]) + "." + v[2]
        if v[0] in 'd&': return nm(v[1])
        if v[0] in ('call', 'op'): return v[1] + "(" + ",".join(nm(x) for x in v[2:]) + ")"
        return str(v[0])
    return str(v)

def check(ctx, prog, fname, file, alts, files, out=True, packed=None, setup=None):
    """alts: function of the parameter list -> [(conditions, expected items or NONE[, packed size])]"""
    fn = prog.need(fname, file)
    ps = [('sym', 'param', p['n'], n) for n, p in enumerate(fn.params)]
    rule = R(ctx, files, fn)
    eng = Engine(prog, rule)
    hits = {}
    try: res = eng.run(fn, setup=setup)
    except Overflow as e:
        ctx.violation("%s:fields" % fname, fn.file, fn.line, "the fields put into the packet never form complete ones: %s" % e)
        return rule, True
    ctx.used(eng); ctx.count("encoders")
    good_groups = False
    for st, v in res:
        content = st.mon[0]
        pk, sz = eng.read(st, ('d', ps[1])), eng.read(st, ('d', ps[2]))
        if any(i == ('G', ps[-1]) for i in content): good_groups = True
        if fname.endswith('define_macro') and not st.mon[3] and eng.truth(st, ps[-1]) is not False and eng.truth(st, ('call', 'g_hash_table_size', ps[-1])) is not False:
            ctx.violation("%s:skipped" % fname, fn.file, fn.line, "the macros aren't put into the packet (path %s)" % trace_str(st.trace))
        for n, alt in enumerate(alts(ps)):
            s = st.copy()
            if not all(c(eng, s) for c in alt[0]): continue
            hits[n] = 1
            ctx.count("states compared")
            exp = alt[1]
            bad = None
            r = repr(content)
            if exp == NONE:
                if eng.canon(s, pk) != I0 or eng.canon(s, sz) != I0: bad = "a packet is produced although there is nothing to send"
            else:
                if pk != ('sym', 'buf', r, 'str') or sz != ('sym', 'buf', r, 'len'):
                    bad = "the returned packet and size aren't those of the whole encoded data" if pk[0] != 'i' else "no packet is returned"
                else:
                    a = [i for i in content if i[0] != 'G']
                    pre, rest = a[:1], tuple(content[1:])
                    if not (pre and pre[0][0] == 'w' and pre[0][2] == 4 and big_endian(eng, s, pre[0][1], ('sym', 'buf', repr(rest), 'len'))):
                        bad = "the packet doesn't begin with its big-endian content length"
                    else:
                        got, want = norm(eng, s, a[1:]), norm(eng, s, exp)
                        if len(got) != len(want) or not all(same(eng, s, x, y) for x, y in zip(got, want)):
                            bad = "the packet's content is %s instead of %s" % (show(got), show(want))
                        elif any(i[0] == 'G' and i[1] not in (ps[-1], 'no-value') for i in content): bad = "the macros are taken from another table"
            if not bad and len(alt) > 2 and alt[2] is not None:
                loc, want = alt[2]
                if eng.truth(s, eng.mkop(s, '==', eng.read(s, loc), want)) is not True: bad = "the packed size reported isn't the number of bytes packed"
            if bad:
                ctx.violation("%s:alternative%d" % (fname, n), fn.file, fn.line, "%s (path %s)" % (bad, trace_str(st.trace)))
    for n, alt in enumerate(alts(ps)):
        if n not in hits: raise AnalysisBroken("%s: alternative %d of the specification is never reached" % (fname, n))
    return rule, good_groups

def run(ctx):
    p = ctx.prog
    ctx.explanation = ("Each public encoder function is abstractly interpreted with the shared buffer's content modelled as a sequence of fields (bytes, strings, blocks, 32-bit words); "
        "on every path the content, the length prefix and the returned pointer and size are compared with the packet the protocol prescribes.")
    C, RE = "milter/core/milter-command-encoder.c", "milter/core/milter-reply-encoder.c"
    M = "milter/manager/milter-manager-"
    files = (ENC, C, RE, M + "control-command-encoder.c", M + "control-reply-encoder.c", M + "reply-encoder.c", M + "launch-command-encoder.c")
    R.callbacks = set()
    ce = lambda n, alts, **k: check(ctx, p, "milter_command_encoder_encode_" + n, C, alts, files, **k)
    re_ = lambda n, alts, **k: check(ctx, p, "milter_reply_encoder_encode_" + n, RE, alts, files, **k)
    def opt(q): return [('be32', ('call', 'milter_option_get_' + f, q)) for f in ('version', 'action', 'step')]
    for f in (ce, re_):
        req = (lambda q: [([nonnull(q[4])], [('req', q[4])]), ([null(q[4])], [])]) if f is re_ else (lambda q: [([], [])])
        f("negotiate", lambda q: [(c + c2, Z("O") + o + x) for c, o in (([nonnull(q[3])], opt(q[3])), ([null(q[3])], [])) for c2, x in req(q)])
    r, gg = ce("define_macro", lambda q: [([], Z("D", ('c', q[3])))])
    if not gg: ctx.violation("define_macro:macros", C, p.need("milter_command_encoder_encode_define_macro").line, "no macro reaches the packet with the value of the given table")
    def connect(q):
        fam = ('ld', ('f', ('d', q[4]), 'sa_family'))
        h = Z("C", S(q[3]), 0)
        ad = lambda f: ('f', ('d', q[4]), f)
        return [([eq(fam, 2)], h + Z("4", ('w', ('ld', ad('sin_port')), 2), ('ntop', I(2), ('&', ad('sin_addr'))), 0)),
                ([eq(fam, 10)], h + Z("6", ('w', ('ld', ad('sin6_port')), 2), "IPv6:", ('ntop', I(10), ('&', ad('sin6_addr'))), 0)),
                ([eq(fam, 1)], h + Z("L", 0, 0, S(('&', ad('sun_path'))), 0)),
                ([ne(fam, 2), ne(fam, 10), ne(fam, 1)], h + Z("U"))]
    ce("connect", connect)
    for n, o in (("helo", "H"), ("envelope_from", "M"), ("envelope_recipient", "R"), ("unknown", "U")):
        ce(n, lambda q, o=o: [([], Z(o, S(q[3]), 0))])
    for n, o in (("data", "T"), ("end_of_header", "N"), ("abort", "A"), ("quit", "Q")):
        ce(n, lambda q, o=o: [([], Z(o))])
    ce("header", lambda q: [([], Z("L", S(q[3]), 0, S(q[4]), 0))])
    def body(q):
        pz = [([nonnull(q[5])], ('d', q[5])), ([null(q[5])], None)]
        return [(c + [cond], Z("B", ('b', q[3], n)), (loc, n) if loc else None) for c, loc in pz for cond, n in ((gt(q[4], 65535), I(65535)), (le(q[4], 65535), q[4]))]
    ce("body", body)
    ce("end_of_message", lambda q: [([nonnull(q[3]), nonzero(q[4])], Z("E", ('b', q[3], q[4]))), ([null(q[3])], Z("E")), ([iszero(q[4])], Z("E"))])

    for n, o in (("continue", "c"), ("temporary_failure", "t"), ("reject", "r"), ("accept", "a"), ("discard", "d"), ("progress", "p"), ("connection_failure", "f"), ("shutdown", "4"), ("skip", "s")):
        re_(n, lambda q, o=o: [([], Z(o))])
    re_("reply_code", lambda q: [([nonnull(q[3])], Z("y", S(q[3]), 0)), ([null(q[3])], NONE)])
    name = lambda v, exp: [([filled(v)], exp), ([null(v)], NONE), ([isempty(v)], NONE)]
    re_("add_header", lambda q: name(q[3], Z("h", S(q[3]), 0, S(q[4]), 0)))
    re_("insert_header", lambda q: name(q[4], Z("i", ('be32', q[3]), S(q[4]), 0, S(q[5]), 0)))
    re_("change_header", lambda q: name(q[3], Z("m", ('be32', q[4]), S(q[3]), 0, S(q[5]), 0)))
    re_("delete_header", lambda q: name(q[3], Z("m", ('be32', q[4]), S(q[3]), 0, 0)))
    two = lambda a, b, without, with_: [([filled(a), filled(b)], with_), ([filled(a), null(b)], without), ([filled(a), isempty(b)], without), ([null(a)], NONE), ([isempty(a)], NONE)]
    re_("change_from", lambda q: two(q[3], q[4], Z("e", S(q[3]), 0), Z("e", S(q[3]), 0, S(q[4]), 0)))
    re_("add_recipient", lambda q: two(q[3], q[4], Z("+", S(q[3]), 0), Z("2", S(q[3]), 0, S(q[4]), 0)))
    re_("delete_recipient", lambda q: name(q[3], Z("-", S(q[3]), 0)))
    re_("quarantine", lambda q: name(q[3], Z("q", S(q[3]), 0)))
    re_("replace_body", lambda q: [([nonnull(q[3]), nonzero(q[4]), gt(q[4], 65535)], Z("b", ('b', q[3], I(65535))), (('d', q[5]), I(65535))),
                                   ([nonnull(q[3]), nonzero(q[4]), le(q[4], 65535)], Z("b", ('b', q[3], q[4])), (('d', q[5]), q[4])),
                                   ([iszero(q[4])], NONE, (('d', q[5]), I0)), ([null(q[3]), nonzero(q[4])], NONE, (('d', q[5]), I0))])
    # the callback which adds a macro request
    ctx.floor("macro request callbacks", 1)
    for cb in sorted(R.callbacks): request(ctx, p, p.need(cb, RE), files)

    T = lambda s, *x: Z(s, 0, *x)
    mk = lambda mod: lambda n, alts: check(ctx, p, "milter_manager_%s_encode_%s" % (mod.replace("-", "_"), n), M + mod + ".c", alts, files)
    f = mk("control-command-encoder")
    f("set_configuration", lambda q: [([], T("set-configuration", ('b', q[3], q[4])))])
    f("reload", lambda q: [([], T("reload"))]); f("get_status", lambda q: [([], T("get-status"))])
    for m in ("reply-encoder", "control-reply-encoder"):
        f = mk(m)
        f("success", lambda q: [([], T("success"))])
        f("failure", lambda q: [([], T("failure", S(q[3])))]); f("error", lambda q: [([], T("error", S(q[3])))])
    f("configuration", lambda q: [([], T("configuration", ('b', q[3], q[4])))]); f("status", lambda q: [([], T("status", ('b', q[3], q[4])))])
    mk("launch-command-encoder")("launch", lambda q: [([], T("launch", S(q[3]), 0, S(q[4])))])
    ctx.floor("encoders", 43); ctx.floor("buffer operations", 140)
    ctx.assume("GString operations and inet_ntop behave as documented; strings passed are NUL terminated")

def request(ctx, p, fn, files):
    """stage (big endian), symbols separated by one space, NUL; nothing for a command without a stage"""
    rule = R(ctx, files, fn)
    ps = [('sym', 'param', q['n'], n) for n, q in enumerate(fn.params)]
    rule.buf = ps[2]
    eng = Engine(p, rule)
    stage = ('call', 'milter_utils_command_to_macro_stage', ps[0])
    n = 0
    for st, v in eng.run(fn):
        c = [i for i in st.mon[0]]
        t = any(eng.truth(st, eng.mkop(st, '==', stage, I(n))) is True for n in (-1, 0xffffffff))
        if t is True:
            if c != [('OLD',)]: ctx.violation("macros-request:unknown", fn.file, fn.line, "a request for a command without a stage changes the packet")
            continue
        rest = c[1:]
        ok = c and c[0] == ('OLD',) and rest and rest[0][0] == 'w' and rest[0][2] == 4 and big_endian(eng, st, rest[0][1], stage) and rest[-1] == ('c', I0)
        mid = rest[1:-1]
        if mid and mid[0][0] == 's' and rule.elem(mid[0][1]): mid = mid[1:]
        elif mid: ok = False
        if mid not in ([], [('M',)]): ok = False
        n += 1
        if not ok: ctx.violation("macros-request:content", fn.file, fn.line, "a macro request is encoded as %s (path %s)" % (show([i for i in c if i != ('OLD',)]), trace_str(st.trace)))
    if not n: raise AnalysisBroken("C03: no macro request is encoded")
    ctx.used(eng)
