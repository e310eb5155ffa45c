"""C13: failure and error go together: a function fails if and only if it sets the error it was given, once; no error is used when there is none, or lost, or freed twice."""
from ctxlib import *
from collections import defaultdict
PP, P1 = 'struct _GError **', 'struct _GError *'
GERR = ('message', 'code', 'domain')
SETTERS = {'g_set_error', 'g_set_error_literal'}
RAISES = {'rbgerr_gerror2exception', 'rb_exc_raise', 'rb_raise', 'g_option_context_exit'}
NONNEG = {'milter_decoder_decode_null_terminated_value'}      # a position, negative on failure
def kind(f):
    """how a function tells that it failed"""
    if f.name in NONNEG: return 'nonneg'
    if f.rt == 'void': return 'always'
    if f.rts in ('gboolean', 'bool', '_Bool') or f.static and f.rt == 'int': return 'bool'
    if f.rt.endswith('*'): return 'pointer'
    return 'value'

class R(CtxRule):
    """mon: (live errors, problems) ; live: errors made here which are still to be freed or handed on"""
    max_depth = 3
    block_cap = 400
    inl = frozenset()
    def __init__(self, p, fn, contracts):
        self.p, self.fn, self.contracts = p, fn, contracts
        self.made = 0
    def init_mon(self): return (frozenset(), frozenset(), frozenset())
    def inline(self, eng, f):
        """helpers which do not say by themselves whether they failed, and those which have no error to set but handle one"""
        if f.name in self.contracts: return f.key() in self.inl
        return f.static and f.file == self.fn.file and not f.variadic and f.rt in ('int', 'void', P1) and \
            (f.rt == P1 or any(q['t'] == P1 for q in f.params) or any(PP in (n.get('at') or ()) for _, n in f.callees))
    def widen_key(self, eng, st, fr):
        k = []
        for l, v in st.env.items():
            if l[0] == 'd' and l[1] == self.errp: k.append((l, eng.truth(st, v)))
            elif l[0] == 'v' and len(l) > 2:
                t = fr.fn.vartypes.get(l[2])
                if t == P1: k.append((l, eng.truth(st, v)))
                elif t in ('int', '_Bool') and v in (I0, I1): k.append((l, v))
        return frozenset(k)
    def bad(self, st, key, line, msg): st.mon = (st.mon[0], st.mon[1], st.mon[2] | {(key, line, msg)})
    def live(self, st, v): st.mon = (st.mon[0] | {v}, st.mon[1], st.mon[2])
    def gone(self, st, v): st.mon = (st.mon[0] - {v}, st.mon[1] | {v}, st.mon[2])
    def loc(self, v): return v[1] if v[0] == '&' else ('d', v)
    def given(self, eng, st, fr, v): return v == self.errp
    def get(self, eng, st, loc): return st.env.get(loc, ('ld', loc))
    def put(self, eng, st, fr, ptr, node, what):
        """an error is set where ptr points to"""
        if eng.truth(st, ptr) is False: return
        loc = self.loc(ptr)
        old = self.get(eng, st, loc)
        if eng.truth(st, old) is True: self.bad(st, 'twice', node['l'], "%s sets an error over one which is already set" % what)
        v = eng.fresh(st, fr, ('error', node['l']), 'error'); eng.constrain(st, v, ne=0)
        st.mon = (st.mon[0], st.mon[1] - {v}, st.mon[2])
        st.env[loc] = v
        if loc[0] == 'v': self.live(st, v)
    def use(self, eng, st, v, line, what):
        if v in st.mon[1]: self.bad(st, 'freed', line, "%s uses an error which was freed or handed on" % what)
        elif eng.truth(st, v) is not True and v != self.errarg: self.bad(st, 'none', line, "%s uses an error which may not be set" % what)
    def havoc(self, eng, st, fr, args, k, node):
        for n, a in enumerate(args):
            if n != k and a[0] == '&' and a[1][0] != 'g': eng.havoc(st, fr, a[1], ('o', node['l']), 'out%d' % n)
    def answer(self, eng, st, fr, args, k, node):
        """the handlers of a signal say whether they succeeded; a decoder which fails may leave the error to its base class"""
        boolean = next((a for a, t in zip(args[k + 1:], node['at'][k + 1:]) if t in ('int *', '_Bool *')), None)
        if boolean is None: return [(st, I0)]
        s, q = st.copy(), st.copy()
        self.put(eng, s, fr, args[k], node, 'a handler')
        for x, v in ((st, I1), (s, I0), (q, I0)): x.env[self.loc(boolean)] = v
        return [(st, I0), (s, I0), (q, I0)]
    def on_call(self, eng, st, fr, name, args, node):
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
        if name.startswith('g_return_if_fail_warning'): return []       # misuse of the function
        at = node.get('at', ())
        k = next((n for n, t in enumerate(at) if t == PP and n < len(args)), None)
        vals = [n for n, t in enumerate(at) if t == P1 and n < len(args)]
        if name == 'g_steal_pointer' and args[0][0] == '&':
            v = self.get(eng, st, args[0][1]); st.env[args[0][1]] = I0
            return [(st, v)]
        if name in RAISES:
            for n in vals: self.use(eng, st, args[n], node['l'], name)
            return []
        if name == 'g_clear_error':
            v = self.get(eng, st, self.loc(args[0]))
            if v != I0: self.gone(st, v)
            st.env[self.loc(args[0])] = I0
            return [(st, I0)]
        if name in ('g_error_free', 'g_propagate_error', 'g_propagate_prefixed_error'):
            v = args[vals[0]]
            self.use(eng, st, v, node['l'], name)
            self.gone(st, v)
            if k is not None: self.put(eng, st, fr, args[k], node, name)
            if k is not None and args[k][0] != '&' or k is None: pass
            return [(st, I0)]
        if name.startswith('g_signal_emit') and k is not None:      # a result location of a signal
            return self.answer(eng, st, fr, args, k, node)
        if name == 'g_error_copy' or name.startswith('g_error_new'):
            if name == 'g_error_copy': self.use(eng, st, args[0], node['l'], name)
            v = eng.fresh(st, fr, ('error', node['l']), 'error'); eng.constrain(st, v, ne=0); self.live(st, v)
            return [(st, v)]
        for n in vals:
            if name in ('g_error_matches',): continue
            self.use(eng, st, args[n], node['l'], name.strip('*'))
            if name == 'milter_utils_set_error_with_sub_error': self.gone(st, args[n])
        if k is None:
            if name == 'g_object_new' or name.endswith('_new'):
                v = eng.fresh(st, fr, ('new', node['l']), name); eng.constrain(st, v, ne=0)
                return [(st, v)]
            return None
        g = self.p.resolve(name, fr.fn.file)
        if g is not None and g.key() in self.inl and fr.depth < self.max_depth: return None
        self.havoc(eng, st, fr, args, k, node)
        c = self.contracts.get(name) if g is not None else None
        if name in SETTERS or c == 'always':
            self.put(eng, st, fr, args[k], node, name); return [(st, I0)]
        t, nm = node['t'], name.strip('*')
        if c is None: c = 'bool' if t in ('int', '_Bool') else 'pointer' if t.endswith('*') else 'nonzero' if t == 'GIOStatus' else 'value'
        v = I0 if c in ('inverse', 'bool', 'silent') else eng.fresh(st, fr, ('ret', node['l']), nm)
        s, q = st.copy(), st.copy()
        if eng.truth(s, args[k]) is not False: self.put(eng, s, fr, args[k], node, nm)
        if c == 'inverse': return [(st, I0), (s, I1)]
        if c == 'bool': return [(st, I1), (s, I0)]
        if c == 'silent' and v == I0 and t.endswith('*'):
            v = eng.fresh(st, fr, ('ret', node['l']), nm); eng.constrain(st, v, ne=0)
            return [(st, v), (s, I0), (q, I0)]
        if c == 'silent': return [(st, I1), (s, I0), (q, I0)]
        if c == 'nonneg': eng.constrain(st, v, lo=0); eng.constrain(s, v, hi=-1); return [(st, v), (s, v)]
        if c == 'value': return [(st, v), (s, v)]
        eng.constrain(st, v, ne=0)
        return [(st, v), (s, I0)]
    def on_load(self, eng, st, fr, loc, node):
        if loc[0] == 'f' and loc[2] in GERR and node.get('k') == 'mem' and 'GError' in (node['b'].get('t') or ''):
            v = loc[1][1] if loc[1][0] == 'd' else None
            if v is not None: self.use(eng, st, eng.canon(st, v), node.get('l', fr.fn.line), 'reading its %s' % loc[2])
    def on_store(self, eng, st, fr, loc, val, node):
        if val in st.mon[0] and loc[0] != 'v': self.gone(st, val); st.mon = (st.mon[0], st.mon[1] - {val}, st.mon[2])

def run(ctx):
    p = ctx.prog
    ctx.explanation = ("Every function which takes, makes or receives a GError is abstractly interpreted path by path; each callee with a GError location "
        "either succeeds or fails with an error set, as its own check establishes, and local helpers which don't follow the convention are inlined. "
        "A violation is a path on which the result and the error disagree, an error is set twice, used while it may be missing or freed, or lost.")
    fns = []
    for f in p.fns.values():
        if f.file.startswith('tool/'): continue
        if any(q['t'] == PP or q['t'] == P1 for q in f.params) or any(PP in (n.get('at') or ()) or P1 in (n.get('at') or ()) for _, n in f.callees): fns.append(f)
    contracts = {f.name: kind(f) for f in fns if any(q['t'] == PP for q in f.params)}
    for n in silent(p, fns): contracts[n] = 'silent'
    inl = set()
    refs = set().union(*(f.fnrefs for f in p.fns.values()))
    local = [f for f in fns if f.static and f.name in contracts and f.name not in refs]
    for f in local:
        # a question whose yes comes with the error
        if contracts[f.name] == 'bool' and check(ctx, f, contracts, inl) and not check(ctx, f, {**contracts, f.name: 'inverse'}, inl): contracts[f.name] = 'inverse'
    while True:
        more = {f.key() for f in local if f.key() not in inl and (contracts[f.name] in ('value', 'always') or check(ctx, f, contracts, inl))}
        if not more: break
        inl |= more
    called = {g.key() for f in p.fns.values() for g in p.callees(f)}
    for f in fns:
        if f.key() in inl and f.key() in called: continue       # judged where it is called
        ctx.count("functions")
        for key, line, msg in check(ctx, f, contracts, inl, True): ctx.violation(key, f.file, line, msg)
    ctx.assume("GLib and the other libraries follow the GError convention")
    ctx.floor("functions", 200); ctx.floor("paths", 1000)

def silent(p, fns):
    """the implementations of MilterDecoderClass::decode and what only they use"""
    out = {x['y']['n'] for f in p.fns.values() if f.name.endswith('_class_init') for _, _, e in f.exprs() for x in walk_stmt(e)
           if x['k'] == 'asg' and x['x']['k'] == 'mem' and x['x']['f'] == 'decode' and x['y']['k'] == 'fn'}
    users = defaultdict(set)
    for f in p.fns.values():
        for n in f.fnrefs | {n for n, _ in f.callees}: users[n].add(f.name)
    while True:
        more = {f.name for f in fns if f.name not in out and users[f.name] and users[f.name] <= out and f.name not in NONNEG}
        if not more: return out
        out |= more

def check(ctx, f, contracts, inl, count=False):
    p = ctx.prog
    r = R(p, f, contracts)
    r.inl = inl - {f.key()}
    eng = Engine(p, r)
    st = St(mon=r.init_mon())
    fr = Frame(f, 0, None)
    r.errp = r.errarg = None
    for n, q in enumerate(f.params):
        v = ('sym', 'param', q['n'], n)
        st.env[('v', fr.id, q['id'], q['n'])] = v
        if q['t'] == PP: r.errp = v; st.env[('d', v)] = I0
        if q['t'] == P1: r.errarg = v
    out = {}
    def V(key, line, msg, s):
        if (key, line) not in out: out[(key, line)] = ("%s:%s" % (f.name, key), line, "%s: %s (path %s)" % (f.name, msg, trace_str(s.trace)))
    c = contracts.get(f.name)
    for s, v in eng.run_fn(st, fr):
        if count: ctx.count("paths")
        live, gone, probs = s.mon
        for key, line, msg in probs: V(key, line, msg, s)
        if any(e != v for e in live): V('lost', f.line, "an error is neither freed nor handed on", s)
        if r.errp is None or c == 'value' or eng.truth(s, r.errp) is False: continue
        isset = eng.truth(s, s.env.get(('d', r.errp), I0))
        if c == 'nonneg': lo, hi, _ = s.facts.get(v, (v[1], v[1], 0) if v[0] == 'i' else TOPC); ok = True if lo >= 0 else False if hi < 0 else None
        else: ok = eng.truth(s, v)
        if c == 'pointer' and v[:2] == ('op', '+'): ok = True
        if c == 'inverse' and ok is not None: ok = not ok
        if c == 'always': ok = False
        if ok is None: V('unknown', f.line, "whether it succeeded is unknown: %s" % (v,), s)
        elif ok and isset is not False: V('set', f.line, "it succeeds but sets an error", s)
        elif not ok and isset is not True and c != 'silent': V('unset', f.line, "it fails but sets no error", s)
    if count: ctx.used(eng)
    return list(out.values())
