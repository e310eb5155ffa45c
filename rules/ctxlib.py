"""Model of the protocol agents (client and server contexts) for the rules about commands, replies and modifications."""
from absint import *
from facts import AnalysisBroken
import siglib
from childrenlib import connections, norm
import c01
vfunc = c01.vfunc
CC, SC, AG, PA = "milter/client/milter-client-context.c", "milter/server/milter-server-context.c", "milter/core/milter-agent.c", "milter/core/milter-protocol-agent.c"

def sig_of(prog, file, v, node):
    n = siglib.emitted(prog, file, node)
    if n is None and v[0] == 'ld' and v[1][0] == 'x' and v[1][2][0] == 'i':
        n = prog.signals().get(file, {}).get(v[1][2][1])
        n = n.replace('_', '-') if n else None
    return n
def leaves(v):
    """the atoms of a value"""
    if v[0] in ('op',): return leaves(v[2]) | leaves(v[3])
    if v[0] in ('not', 'un'): return leaves(v[-1])
    return {v}

class CtxRule(Rule):
    """mon: tuple of events in order"""
    max_depth = 13
    block_cap = 1500
    file = None
    limit = 3
    def __init__(self, prog, file, stop=(), consts=None, also=()):
        self.p, self.file, self.stop, self.consts, self.also = prog, file, set(stop), consts or {}, set(also)
        self.decl = siglib.declared(prog)
    def init_mon(self): return ()
    def inline(self, eng, f): return (f.file == self.file and f.name not in self.stop) or f.name in self.also
    def ev(self, st, *e):
        if sum(1 for x in st.mon if x == e) < self.limit: st.mon = st.mon + (e,)
    def widen_key(self, eng, st, fr): return frozenset((l, v) for l, v in st.env.items() if l[0] in 'vf' and v[0] == 'i')
    def unknown(self, eng, st, fr, node, what, **k):
        v = eng.fresh(st, fr, (what, node['l']), what)
        if k: eng.constrain(st, v, **k)
        return v
    def set_out(self, eng, st, fr, ptr, v):
        if ptr[0] == '&': st.env[ptr[1]] = v
    def fails(self, eng, st, fr, node, errp, what):
        """a call which returns TRUE, or FALSE with an error set"""
        s = st.copy()
        if errp is not None and errp[0] == '&':
            st.env[errp[1]] = st.env.get(errp[1], I0) if st.env.get(errp[1], I0)[0] == 'i' else I0
            v = eng.fresh(s, fr, (what, 'error', node['l']), 'error'); s.env[errp[1]] = v; eng.constrain(s, v, ne=0)
        self.ev(s, 'failed', what)
        if errp is not None and errp[0] != '&' and errp != I0: self.ev(s, 'set-error')
        return [(st, I1), (s, I0)]
    def emit(self, eng, st, fr, n, args, node):
        """record a signal; a trailing return location gets an unknown value"""
        types = [v for (f, m), v in self.decl.items() if m == n and f == self.file] or [v for (f, m), v in self.decl.items() if m == n]
        k = max((len(t) for t in types), default=len(args))
        extra = args[k:]
        vals = tuple(eng.canon(st, a) for a in args[:k])
        if extra and extra[0][0] == '&':
            v = ('sym', 'returned', n, 0)
            st.env[extra[0][1]] = v
            self.ev(st, 'emit', n, vals)
            self.ev(st, 'ret', v)
        else: self.ev(st, 'emit', n, vals)
        return [(st, I0)]
    def on_call(self, eng, st, fr, name, args, node):
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
        if name in self.consts:
            v = self.consts[name]
            if callable(v): return v(self, eng, st, fr, args, node)
            return None if v is None else [(st, I(v) if isinstance(v, int) else v)]
        if name in self.stop: self.ev(st, 'call', name, tuple(args[1:])); return None
        if name in ('g_signal_emit', 'g_signal_emit_by_name'):
            by = name.endswith('by_name')
            n = norm(args[1][1]) if by and args[1][0] == 's' else sig_of(self.p, fr.fn.file, args[1], node)
            return self.emit(eng, st, fr, n or '?', args[2 if by else 3:], node)
        if name == 'milter_error_emittable_emit': self.ev(st, 'emit', 'error', ()); return [(st, I0)]
        if name == 'milter_finished_emittable_emit': self.ev(st, 'emit', 'finished', ()); return [(st, I0)]
        if name == 'milter_event_loop_add_timeout':
            h = args[2][1] if args[2][0] == 'fn' else '?'
            self.ev(st, 'arm', h, args[1], args[3])
            v = ('sym', 'timer', h, 0)
            st.facts[v] = (1, INF, frozenset())
            return [(st, v)]
        if name == 'milter_event_loop_remove': self.ev(st, 'remove', args[1]); return [(st, I1)]
        if name in ('g_set_error', 'g_set_error_literal', 'milter_utils_set_error_with_sub_error', 'g_propagate_error'):
            if args[0][0] == '&':
                v = eng.fresh(st, fr, ('error', node['l']), 'error'); st.env[args[0][1]] = v; eng.constrain(st, v, ne=0)
            else: self.ev(st, 'set-error')
            return [(st, I0)]
        if name == 'g_clear_error':
            if args[0][0] == '&': st.env[args[0][1]] = I0
            return [(st, I0)]
        if name == 'milter_protocol_agent_set_macro_context': self.ev(st, 'macro', args[1]); return [(st, I0)]
        m = re.match(r'milter_(reply|command)_encoder_encode_(\w+)$', name)
        if m:
            v = ('call', 'packet', m.group(2)) + tuple(eng.canon(st, a) for a in args[3:])
            for a, x in ((args[1], v), (args[2], ('call', 'size') + v[2:])): self.set_out(eng, st, fr, a, x)
            return [(st, I0)]
        if name == 'milter_agent_write_packet':
            pieces, size = written(eng, st, args[1])
            self.ev(st, 'write', pieces, size is not None and lin(eng.canon(st, args[2])) == lin(eng.canon(st, size)))
            return self.fails(eng, st, fr, node, args[3], 'write')
        if name == 'milter_agent_flush':
            self.ev(st, 'flush')
            return self.fails(eng, st, fr, node, args[1], 'flush')
        if name == 'milter_agent_shutdown': self.ev(st, 'shutdown'); return [(st, I0)]
        base = name.replace('_inline', '')
        if base in ('g_string_new', 'g_string_new_len', 'g_string_sized_new'):
            v = ('call', 'string', node['l']); 
            st.env[('f', ('d', v), 'content')] = ('call', 'cat', args[0]) if base != 'g_string_sized_new' and args[0] != I0 else ('call', 'cat')
            st.env[('f', ('d', v), 'str')] = ('call', 'str', v); st.env[('f', ('d', v), 'len')] = ('call', 'len', v)
            return [(st, v)]
        if base.startswith(('g_string_append', 'g_string_prepend')) and args[0][0] != 'i':
            loc = ('f', ('d', args[0]), 'content')
            cur = st.env.get(loc, ('call', 'cat', ('ld', loc)))
            st.env[loc] = ('call', 'cat') + ((args[1],) + cur[2:] if 'prepend' in base else cur[2:] + (args[1],))
            self.ev(st, 'append' if 'append' in base else 'prepend', args[0], args[1], args[2] if len(args) > 2 else None)
            ll = ('f', ('d', args[0]), 'len')
            if st.env.get(ll, ('x',))[:2] != ('call', 'len'): eng.havoc(st, fr, ll, ('len', node['l']), 'len'); eng.constrain(st, st.env[ll], lo=0)
            return [(st, args[0])]
        if base in ('g_string_truncate', 'g_string_set_size') and args[1] == I0:
            self.ev(st, 'truncate', args[0]); return [(st, args[0])]
        if base == 'g_string_free' : return [(st, I0)]
        if base in ('g_bytes_new_static', 'g_bytes_new', 'g_bytes_new_take'): return [(st, ('call', 'bytes', args[0], args[1]))]
        if base in ('g_object_ref', 'g_bytes_ref'): return [(st, args[0])]
        if base in ('g_strdup',): return [(st, I0 if args[0] == I0 else ('call', 'dup', args[0]))]
        return None
    nn = ('packet', 'string', 'bytes', 'str')
    def nonnull(self, v): return v[0] == 'call' and v[1] in self.nn
    def after_call(self, *a): return Rule.after_call(self, *a)

def written(eng, st, v):
    """(pieces, size) of what is written: a packet, or the contents of a string"""
    loc = ('d', v[2]) if v[:2] == ('call', 'str') else v[1][1] if v[0] == 'ld' and v[1][0] == 'f' and v[1][2] == 'str' else None
    if loc is None: return (v,), ('call', 'size') + v[2:] if v[:2] == ('call', 'packet') else None
    c = st.env.get(('f', loc, 'content'), ('call', 'cat', ('ld', ('f', loc, 'content'))))
    return c[2:], st.env.get(('f', loc, 'len'), ('ld', ('f', loc, 'len')))
def lin(v):
    """linear form of a value: tuple of (atom, coefficient), None for the constant"""
    d = {}
    def add(v, k):
        if v[0] == 'i': d[None] = d.get(None, 0) + k * v[1]
        elif v[0] == 'op' and v[1] in '+-': add(v[2], k); add(v[3], k if v[1] == '+' else -k)
        elif v[0] == 'un' and v[1] == '-': add(v[2], -k)
        elif v[0] == '&' and v[1][0] == 'x': add(('&', ('d', v[1][1][1])) if v[1][1][0] == 'd' else ('&', v[1][1]), k); add(v[1][2], k)
        elif v[0] == '&' and v[1][0] == 'd': add(v[1][1], k)
        else: d[v] = d.get(v, 0) + k
    add(v, 1)
    return frozenset((a, c) for a, c in d.items() if c)
def linsum(*vs):
    d = {}
    for s, v in vs:
        for a, c in lin(v): d[a] = d.get(a, 0) + s * c
    return frozenset((a, c) for a, c in d.items() if c)
def getter_loc(prog, name, file):
    """private field returned by a getter, as (field, function from the object to its location)"""
    fn = prog.need(name, file)
    eng = Engine(prog, CtxRule(prog, file))
    ls = {v[1] for st, v in eng.run(fn) if v[0] == 'ld' and v[1][0] == 'f'}
    if len(ls) != 1: raise AnalysisBroken("%s doesn't return a single field" % name)
    l = ls.pop()
    me = ('sym', 'param', fn.params[0]['n'], 0)
    return l[2], lambda obj: subst_any(l, me, obj)
def subst_any(v, old, new):
    if v == old: return new
    return tuple(subst_any(x, old, new) for x in v) if isinstance(v, tuple) else v
def enum_values(prog, prefix):
    return sorted((v, n) for n, v in prog.enums.items() if n.startswith(prefix))
def events(st, *kinds): return [e for e in st.mon if e[0] in kinds]
def index(st, pred): return next((n for n, e in enumerate(st.mon) if pred(e)), None)

def reaching(p, file, names, levels=3):
    """keys of the static functions of a file which call one of the names, directly or through others of them"""
    mine = [f for f in p.fns.values() if f.file == file and f.static]
    r = {f.key() for f in mine if any(n in names for n, _ in f.callees)}
    for _ in range(levels): r |= {f.key() for f in mine if any(g.key() in r for g in p.callees(f))}
    return r
