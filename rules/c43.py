"""C43: data which comes with its length is handled as bytes of that length everywhere."""
import os
from ctxlib import *
SIZES = {'gsize', 'gssize', 'size_t', 'ssize_t', 'unsigned long', 'gulong', 'guint64', 'goffset'}
CH = re.compile(r'(const )?(unsigned |signed )?char \*$|(const )?void \*$')
# external functions which take bytes and their length, and those which stop at a NUL
LEN = {'g_string_append_len': 1, 'g_string_new_len': 0, 'g_string_prepend_len': 1, 'g_string_insert_len': 2, 'memcpy': 1, 'memmove': 1, 'g_memdup': 0, 'g_memdup2': 0, 'write': 1, 'fwrite': 0,
       'g_io_channel_write_chars': 1, 'g_file_set_contents': 1, 'g_bytes_new': 0, 'g_string_overwrite_len': 2, 'send': 1, 'g_utf8_validate': 0, 'g_byte_array_append': 1, 'rb_str_new': 0}
STOPS = re.compile(r'(__builtin_)?(g_strdup|g_strndup|g_strdup_printf|g_strdup_value|strdup|strndup|strlen|strnlen|strcpy|strncpy|strcat|strncat|strcmp|strncmp|strcasecmp|strncasecmp|strchr|strrchr|strstr|stpcpy|g_stpcpy|g_strlcpy|g_strlcat|'
                   r'g_str_equal|g_strcmp0|g_str_hash|g_str_has_prefix|g_str_has_suffix|g_ascii_str\w+|g_strsplit|g_strescape|g_strconcat|g_string_new|g_string_append|g_string_prepend|g_string_assign|g_string_insert|'
                   r'g_string_printf|g_string_append_printf|g_strchomp|g_strchug|g_value_set_string|g_value_set_static_string|g_object_set|fputs|puts|printf|fprintf|sprintf|snprintf|g_snprintf|g_markup_escape_text|atoi|sscanf|rb_str_new_cstr|rb_str_new2)(_inline)?$')
MAKES = {'g_memdup', 'g_memdup2'}

def pairs(f):
    return [(n, n + 1) for n in range(len(f.params) - 1) if CH.match(f.params[n]['t']) and (f.params[n + 1]['wt'] in SIZES or
            f.file.startswith('libmilter/') and 'unsigned char' in f.params[n]['t'] and f.params[n + 1]['wt'] in ('int', 'unsigned int'))]
def outs(f):
    """parameters through which bytes and their length are given back"""
    return [(n, n + 1) for n in range(len(f.params) - 1) if re.match(r'(const )?(unsigned )?char \*\*$', f.params[n]['t']) and f.params[n + 1]['wt'].rstrip(' *') in SIZES and f.params[n + 1]['t'].endswith('*')]

class R(Rule):
    """mon: (counted: {(pointer, size)}, copies: {(copy, pointer)}, problems, encoded channels, made channels)"""
    max_depth = 3
    block_cap = 300
    def __init__(self, m, fn): self.m, self.p, self.fn = m, m.p, fn
    def init_mon(self): return (frozenset(), frozenset(), frozenset(), frozenset(), frozenset())
    def add(self, st, i, x): st.mon = st.mon[:i] + (st.mon[i] | {x},) + st.mon[i + 1:]
    def inline(self, eng, f): return f.static and f.file == self.fn.file and not f.variadic and f.nblocks <= 25
    def size_of(self, eng, st, v):
        """the length v comes with"""
        v = eng.canon(st, v)
        for x, s in st.mon[0]:
            if x == v: return eng.canon(st, s)
        if v[0] == 'ld' and v[1][0] == 'f':
            sib = self.m.sibling(v[1])
            if sib: return eng.canon(st, eng.read(st, sib))
        return None
    def on_call(self, eng, st, fr, name, args, node):
        l = node['l']
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
        if name.startswith('g_return_if_fail_warning') or name in ('_exit', 'exit'): return []
        base = name.replace('_inline', '').replace('__builtin_', '').replace('__', '').replace('_chk', '')
        g = self.p.resolve(name, fr.fn.file)
        if g is not None: prs = pairs(g)
        elif base in LEN: prs = [(LEN[base], LEN[base] + 1)]
        elif name.startswith('*') or base in ('g_signal_emit', 'g_signal_emit_by_name'): prs = [(n, n + 1) for n in range(len(args) - 1)]
        elif base == 'g_markup_parse_context_parse': prs = [(1, 2)]
        else: prs = []
        first = {a for a, b in prs}
        for n, a in enumerate(args):
            s = self.size_of(eng, st, a)
            if s is None: continue
            self.m.ctx.count("uses of counted data")
            if n in first:
                nx = eng.canon(st, args[n + 1])
                d = dict(lin(('op', '-', nx, s)))
                if nx == s or not d: continue
                if set(d) == {None} or (nx[0] == 'i' and not 0 <= nx[1] < 1 << 40 and s[0] != 'i'): self.add(st, 2, ('length', l, "bytes are handed to %s with a length other than theirs" % name))
                elif (name.startswith('*') or base.startswith('g_signal_emit')) and s[0] != 'ld': self.add(st, 2, ('length', l, "bytes are handed to %s without their length" % name))
            elif STOPS.match(name) or STOPS.match(base):
                if 'printf' in base and any(eng.canon(st, x) == s for x in args) and not (args[0][0] == 'ld' and args[0][1][0] == 'f' and args[0][1][2] in self.m.strings): continue   # a message which shows it
                if base == 'strlen' and s[0] != 'i' and eng.truth(st, ('op', '<', s, I0)) is True: continue
                self.add(st, 2, ('cut', l, "%s stops at the first NUL of data which has a length" % name))
            elif g is not None and n < len(g.params) and CH.match(g.params[n]['t']) and not self.inlined(eng, fr, g):
                if any(eng.canon(st, x) == s for x in args): continue
                if 'void' not in g.params[n]['t'] and 'logger' not in name: self.add(st, 2, ('bare', l, "bytes are handed to %s without their length" % name))
        if base in MAKES or base in ('memcpy', 'memmove'):
            n = LEN[base]
            s = self.size_of(eng, st, args[n])
            if s is not None:
                if base in MAKES:
                    v = eng.fresh(st, fr, ('copy', l), 'copy')
                    self.add(st, 1, (v, eng.canon(st, args[n])))
                    return [(st, v)]
                self.add(st, 1, (eng.canon(st, args[0]), eng.canon(st, args[n])))
        if g is not None and not self.inlined(eng, fr, g):
            for a, b in outs(g):
                if args[a][0] == '&' and args[b][0] == '&': self.made(eng, st, fr, node, args[a][1], args[b][1])
        if base == 'g_io_channel_read_chars' and args[3][0] == '&':
            v = eng.fresh(st, fr, ('read', l), 'read'); eng.constrain(st, v, lo=0)
            st.env[args[3][1]] = v
            b = eng.canon(st, args[1])
            st.mon = (frozenset(x for x in st.mon[0] if x[0] != b) | {(b, v)},) + st.mon[1:]
            w = eng.fresh(st, fr, ('status', l), 'status'); eng.constrain(st, w, lo=0, hi=3)
            if args[4][0] == '&': eng.havoc(st, fr, args[4][1], ('error', l), 'error')
            return [(st, w)]
        if base == 'g_io_channel_unix_new':
            v = eng.fresh(st, fr, ('channel', l), 'channel'); eng.constrain(st, v, ne=0)
            self.add(st, 4, (v, l))
            return [(st, v)]
        if base == 'g_io_channel_set_encoding' and args[1] == I0: self.add(st, 3, eng.canon(st, args[0]))
        return None
    def inlined(self, eng, fr, g): return self.inline(eng, g) and fr.depth < self.max_depth and g.name not in fr.chain()
    def made(self, eng, st, fr, node, pl, sl):
        v = eng.fresh(st, fr, ('packet', node['l']), 'packet'); s = eng.fresh(st, fr, ('packet size', node['l']), 'size')
        eng.constrain(st, s, lo=0)
        st.env[pl] = v; st.env[sl] = s
        self.add(st, 0, (v, s))

class Model:
    def __init__(self, p, ctx):
        self.p, self.ctx = p, ctx
        self.fpairs = {}
        for (file, name), r in p.records.items():
            fs = r['fields']
            for a, b in zip(fs, fs[1:]):
                if file.startswith(('milter/', 'libmilter/')) and CH.match(a['t']) and b['wt'] in SIZES: self.fpairs[a['n']] = self.fpairs.get(a['n'], set()) | {b['n']}
        self.strings = set()
        for f in p.fns.values():
            if not f.file.startswith(('milter/', 'libmilter/')): continue
            for _, _, e in f.exprs():
                for x in walk_stmt(e):
                    if x['k'] == 'call' and x.get('fn', '').replace('_inline', '') in ('g_string_append_len', 'g_string_prepend_len'):
                        a = x['a'][0]
                        while a['k'] in ('cast', 'paren'): a = a['x']
                        if a['k'] == 'mem': self.strings.add(a['f'])
                    if x['k'] == 'asg' and x['x']['k'] == 'mem':
                        a = x['y'] if 'y' in x else {}
                        while a.get('k') in ('cast', 'paren'): a = a['x']
                        if a.get('k') == 'call' and (a.get('fn') or '').replace('_inline', '') == 'g_string_new_len': self.strings.add(x['x']['f'])
    def sibling(self, loc):
        if loc[2] in self.fpairs and len(self.fpairs[loc[2]]) == 1: return ('f', loc[1], next(iter(self.fpairs[loc[2]])))
        if loc[2] == 'str' and loc[1][0] == 'd' and loc[1][1][0] == 'ld' and loc[1][1][1][0] == 'f' and loc[1][1][1][2] in self.strings: return ('f', loc[1], 'len')
        return None

def run(ctx):
    p = ctx.prog
    m = Model(p, ctx)
    ctx.explanation = ("Every function which gets, reads or makes bytes together with their length is interpreted abstractly: what is called with them, and with which length. "
        "Declared signals are checked for string parameters which are copied up to a NUL although a length follows, and channels made from file descriptors for an encoding.")
    scope = lambda f: f.file.startswith(('milter/', 'libmilter/', 'module/'))
    # signals
    for (file, name), ts in sorted(siglib.declared(p).items()):
        if not file.startswith(('milter/', 'libmilter/')): continue
        for a, b in zip(ts, ts[1:]):
            if b in ('UINT64', 'ULONG', 'INT64', 'LONG') and a in ('STRING', 'OTHER', 'POINTER'):
                ctx.count("signals carrying counted data"); ctx.sample("signal %s (%s)" % (name, file))
                if a == 'STRING': ctx.violation("signal:%s:%s" % (os.path.basename(file), name), file, 1, "the signal %s copies its data up to the first NUL, although its length follows" % name)
    fns = []
    for f in p.fns.values():
        if not scope(f) or f.variadic: continue
        names = {n for n, _ in f.callees}
        gs = [g for g in p.callees(f)]
        if pairs(f) or f.fields_read & (set(m.fpairs) | m.strings) or names & {'g_io_channel_read_chars', 'g_io_channel_unix_new'} or any(outs(g) for g in gs): fns.append(f)
    called = {g.key() for f in fns for g in p.callees(f) if g.file == f.file}
    refs = set().union(*(f.fnrefs for f in p.fns.values()))
    for f in sorted(fns, key=lambda f: f.key()):
        if f.static and f.key() in called and f.name not in refs and not pairs(f): continue
        ctx.count("functions")
        r = R(m, f)
        eng = Engine(p, r, budget=400000)
        prs = pairs(f)
        def setup(st, args):
            for a, b in prs: r.add(st, 0, (args[a], args[b]))
        for st, v in run_with(eng, f, prs):
            ctx.count("paths")
            def V(key, line, msg): ctx.violation("%s:%s:%s" % (os.path.basename(f.file), f.name, key), f.file, line, "%s: %s (path %s)" % (f.name, msg, trace_str(st.trace)))
            for key, line, msg in st.mon[2]: V(key, line, msg)
            for c, l in st.mon[4]:
                if any(n in ('listen', 'bind') for n, _ in f.callees): continue
                ctx.count("channels")
                if c not in st.mon[3]: V('encoding', l, "the bytes on a channel are taken for UTF-8")
            # what is kept is kept with its length
            org = {c: x for c, x in st.mon[1]}
            for loc, val in st.env.items():
                if loc[0] != 'f': continue
                sib = m.sibling(loc)
                if not sib: continue
                val = eng.canon(st, val)
                x = org.get(val, val)
                s = next((eng.canon(st, s) for y, s in st.mon[0] if eng.canon(st, y) == x), None)
                if s is None: continue
                ctx.count("kept")
                if eng.canon(st, eng.read(st, sib)) != s: V('kept', f.line, "%s is kept without its length in %s" % (loc[2], sib[2]))
        ctx.used(eng)
    ctx.floor("functions", 60); ctx.floor("uses of counted data", 80); ctx.floor("signals carrying counted data", 8); ctx.floor("kept", 2); ctx.floor("channels", 4)

def run_with(eng, f, prs):
    rule = eng.rule
    prm = [('sym', 'param', q['n'], n) for n, q in enumerate(f.params)]
    rule.init_mon = lambda: (frozenset((prm[a], prm[b]) for a, b in prs), frozenset(), frozenset(), frozenset(), frozenset())
    return eng.run(f)
