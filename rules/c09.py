"""C09: no timer or watch outlives what it works for, and none is lost, doubled or forgotten while it runs."""
import os
from absint import *
from facts import AnalysisBroken
from ctxlib import vfunc
import siglib
ADD = re.compile(r'milter_event_loop_(add_timeout|add_idle|watch_io|watch_child)(_full)?$')
RM = 'milter_event_loop_remove'
# started when the fields tested show that none runs: both watches of a reader are started and stopped together, a client accepts once per run
PAIR = {('milter/core/milter-reader.c', 'read_watch_id'): 'error_watch_id', ('milter/core/milter-reader.c', 'error_watch_id'): 'read_watch_id'}   # started and stopped together: one is tested
ONCE = {('milter/client/milter-client.c', 'accept_watch_id'): "a client which listens isn't prepared again",
        ('milter/client/milter-client.c', 'accept_error_watch_id'): "a client which listens isn't prepared again",
        ('milter/server/milter-server-context.c', 'connect_watch_id'): "a connection is established again only after the previous attempt ended"}

def addargs(name, args):
    """(callback, data, notify)"""
    full = name.endswith('_full')
    kind = ADD.match(name).group(1)
    n = {'add_timeout': 1, 'add_idle': 0, 'watch_io': 2, 'watch_child': 1}[kind] + 1 + (1 if full else 0)
    return args[n], args[n + 1], args[n + 2] if full else I0

class R(Rule):
    """mon: (sources made here and not kept yet, ids removed, problems, kept here)"""
    max_depth = 3
    block_cap = 150
    def __init__(self, m, fn): self.m, self.p, self.fn = m, m.p, fn
    def init_mon(self): return (frozenset(), frozenset(), frozenset(), frozenset())
    def set(self, st, **k): st.mon = tuple(k.get(n, v) for n, v in zip(('new', 'rm', 'bad', 'kept'), st.mon))
    def bad(self, st, key, line, msg): self.set(st, bad=st.mon[2] | {(key, line, msg)})
    def inline(self, eng, f): return f.file == self.fn.file and not f.variadic and f.key() in self.m.direct and (f.static or f.key() in self.m.small)
    def at_loophead(self, eng, st, fr, b):
        w = lambda v: val_mentions(v, lambda x: isinstance(x, tuple) and len(x) > 2 and x[0] == 'sym' and isinstance(x[2], tuple) and x[2][:1] == ('w',))
        st.mon = (frozenset(x for x in st.mon[0] if not w(x)), frozenset(x for x in st.mon[1] if not w(x)), st.mon[2], frozenset(x for x in st.mon[3] if not w(x)))
    def escape(self, st, v): self.set(st, new=frozenset(x for x in st.mon[0] if not val_mentions(v, lambda y: y == x[0])))
    def on_call(self, eng, st, fr, name, args, node):
        l = node['l']
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
        if name.startswith('g_return_if_fail_warning') or name in ('_exit', 'exit'): return []
        if ADD.match(name):
            cb, data, notify = addargs(name, [eng.canon(st, a) for a in args])
            v = eng.fresh(st, fr, ('source', l), 'source')
            eng.constrain(st, v, lo=0)
            self.set(st, new=st.mon[0] | {(v, l, cb, data, notify != I0)})
            self.m.sites[(fr.fn.file, l)] = (fr.fn, name, cb)
            return [(st, v)]
        if name == RM:
            v = eng.canon(st, args[1])
            if v in st.mon[1]: self.bad(st, 'twice', l, "a source is removed twice")
            self.set(st, rm=st.mon[1] | {v}, new=frozenset(x for x in st.mon[0] if x[0] != v))
            return [(st, I1)]
        g = self.p.resolve(name, fr.fn.file)
        if g is not None and self.inline(eng, g) and fr.depth < self.max_depth and g.name not in fr.chain(): return None
        for a in args: self.escape(st, eng.canon(st, a))
        if g is not None: w = self.m.writes(g)
        else: w = self.m.names if name.startswith('g_signal_emit') or name.startswith('*') else ()
        for loc in [x for x in st.env if x[0] == 'f' and x[2] in w]: self.forget(eng, st, fr, loc, node)
        for f in [f for f in st.facts if f[0] == 'ld' and f[1][0] == 'f' and f[1][2] in w]: self.forget(eng, st, fr, f[1], node)
        if w:
            for n in w: self.set(st, kept=st.mon[3] | {('forgot', n)})
        return None
    def forget(self, eng, st, fr, loc, node):
        st.env[loc] = eng.fresh(st, fr, ('after', node['l'], loc[2]), 'after')
    def on_store(self, eng, st, fr, loc, val, node):
        val = eng.canon(st, val)
        if loc[0] == 'v': return
        src = next((x for x in st.mon[0] if x[0] == val), None)
        self.escape(st, val)
        if loc[0] != 'f' or not (src or loc[2] in self.m.names): return
        if eng.truth(st, val) is False: self.set(st, kept=st.mon[3] | {('reset', loc[2])})
        old = eng.overwritten if eng.overwritten is not None else ('ld', loc)
        old = eng.canon(st, old)
        if src:
            self.m.fields.add((fr.fn.file, loc[2]))
            self.m.cbs.add((fr.fn.file, loc[2], src[2], 'timeout' in self.m.sites[(fr.fn.file, src[1])][1]))
            new = root_new(loc)
            t = eng.truth(st, old)
            self.set(st, kept=st.mon[3] | {('kept', loc, old, t is False and not any(val_mentions(w, lambda y: isinstance(y, tuple) and len(y) > 2 and y[0] == 'f' and y[2] == loc[2]) for w in st.mon[1]))})
            if old not in st.mon[1] and t is not False and not new and ('forgot', loc[2]) not in st.mon[3] and (fr.fn.file, loc[2]) not in ONCE:
                self.bad(st, 'over:' + loc[2], eng.cur_line, "%s gets a new source while the old one may still run" % loc[2])
        elif eng.truth(st, old) is not False and old not in st.mon[1] and val == I0 and loc[2] in self.m.names and eng.truth(st, old) is True and old[0] == 'sym' and old[1] != 'after':
            if not any(x[0] == 'forgot' and x[1] == loc[2] for x in st.mon[3]) and old[-1] == 'source': self.bad(st, 'lost', eng.cur_line, "%s is reset while its source still runs" % loc[2])

def root_new(loc):
    l = loc
    while isinstance(l, tuple) and len(l) > 1 and l[0] in ('f', 'x', 'd', 'ld', 'priv'): l = l[1]
    return isinstance(l, tuple) and l[0] == 'sym' and l[1] != 'param'

class Model:
    def __init__(self, p):
        self.p = p
        self.fields, self.cbs, self.sites, self.names = set(), set(), {}, set()
        self.direct, self.small, self.inl = set(), set(), set()
        self._w = {}
        for f in p.fns.values():
            if any(ADD.match(n) or n == RM for n, _ in f.callees) and not f.name.startswith('milter_event_loop_'): self.direct.add(f.key())
    def close(self):
        """once the fields are known: who sets them"""
        self._w = {}
        for f in self.p.fns.values():
            if f.fields_written & self.names and f.key() not in self.direct and not f.name.endswith('_init'): self.direct.add(f.key())
        # helpers around them
        for _ in range(3):
            for f in self.p.fns.values():
                if f.static and f.key() not in self.direct and f.nblocks <= 12 and any(g.key() in self.direct and g.static and g.file == f.file for g in self.p.callees(f)): self.direct.add(f.key())
    def writes(self, g):
        k = g.key()
        if k not in self._w:
            seen, todo, out = {k}, [g], set()
            while todo:
                f = todo.pop()
                out |= f.fields_written & self.names
                for h in self.p.callees(f):
                    if h.key() not in seen: seen.add(h.key()); todo.append(h)
            self._w[k] = out
        return self._w[k]

def oneshot(p, name, file):
    """whether a callback always asks for removal"""
    f = p.resolve(name, file)
    if f is None: return False
    refs = {i: e['x'] for b, i, e in f.exprs() if e['k'] == 'ex'}
    rets = [e for _, _, e in f.exprs() if e['k'] == 'ret']
    if bool(rets) and all(isinstance(e.get('x'), dict) and siglib.strip(e['x'], refs).get('k') == 'int' and siglib.strip(e['x'], refs)['v'] == 0 for e in rets): return True
    if f.key() not in _oneshot:
        class Plain(Rule):
            def init_mon(self): return ()
            def inline(self, eng, g): return g.static and g.file == f.file
        eng = Engine(p, Plain(), budget=20000)
        try: out = eng.run(f)
        except Limit: out = []
        _oneshot[f.key()] = bool(out) and all(eng.truth(st, v) is False for st, v in out)
    return _oneshot[f.key()]
_oneshot = {}

def check(ctx, m, f, inl=None):
    p = ctx.prog
    eng = Engine(p, R(m, f), budget=400000)
    out = {}
    def V(key, line, msg, s): out.setdefault((key, line), ("%s:%s:%s" % (os.path.basename(f.file), f.name, key), line, "%s: %s (path %s)" % (f.name, msg, trace_str(s.trace))))
    ends = []
    for st, v in eng.run(f):
        ctx.count("paths")
        ends.append((st, v))
        new, rm, bad, kept = st.mon
        keys = {b[0] for b in bad}
        for key, line, msg in bad:
            other = PAIR.get((f.file, key[5:])) if key.startswith('over:') else None
            if other and 'over:' + other not in keys: continue
            V(key, line, msg, st)
        for x in new:
            if x[0] == v or eng.truth(st, x[0]) is False or x[4] or x[3] == I0: continue
            if x[2][0] == 'fn' and oneshot(p, x[2][1], f.file): continue
            V('dropped', x[1], "the id of a source whose callback may run again isn't kept", st)
        for l, w in st.env.items():
            if l[0] == 'f' and w in rm and l[2] in m.names and not root_new(l) and 'free' not in f.name: V('stale', f.line, "%s keeps the id of a source which was removed" % l[2], st)
        for w in rm:
            if w[0] == 'ld' and w[1] not in st.env and w[1][0] == 'f' and w[1][2] in m.names and not f.name.endswith('_free'): V('stale', f.line, "%s keeps the id of a source which was removed" % w[1][2], st)
    ctx.used(eng)
    return list(out.values()), ends, eng

def run(ctx):
    p = ctx.prog
    m = Model(p)
    ctx.explanation = ("Every function which starts or stops an event source, or sets a field holding the id of one, is interpreted abstractly with its local helpers: each source's id is kept, "
        "no field with a running source gets another one, ids are reset when their source is removed; the dispose function of each object removes the sources its fields hold, and callbacks which end reset the fields which are asked before a source is started.")
    scope = lambda f: f.file.startswith(('milter/', 'libmilter/')) and 'event-loop' not in f.file
    class Quiet:
        prog = p
        def count(self, *a): pass
        def used(self, *a): pass
    for f in [f for f in p.fns.values() if f.key() in m.direct and scope(f)]:
        if any(ADD.match(n) for n, _ in f.callees): check(Quiet(), m, f)
    m.names = {n for _, n in m.fields}
    m.close()
    fns = [f for f in p.fns.values() if f.key() in m.direct and scope(f)]
    refs = set().union(*(f.fnrefs for f in p.fns.values()))
    res, todo = {}, [f.key() for f in fns]
    while todo:
        k = todo.pop()
        if k in res: continue
        f = p.fns[k]
        res[k] = check(ctx, m, f)
        if res[k][0] and f.static and f.name not in refs:   # judged where it is called
            callers = [g for g in p.fns.values() if g.file == f.file and any(h.key() == k for h in p.callees(g))]
            if callers:
                res[k] = ([],) + res[k][1:]
                ctx.count("helpers judged where they are called")
                m.direct.add(k); m.inl.add(k)
                for g in callers:
                    m.direct.add(g.key()); res.pop(g.key(), None); todo.append(g.key())
    for k in sorted(res):
        ctx.count("functions")
        for v in res[k][0]: ctx.violation(v[0], k[0], v[1], v[2])
    for (file, line), (f, name, cb) in sorted(m.sites.items()): ctx.count("sources started"); ctx.sample("%s in %s starts %s" % (name, f.name, cb[1] if cb[0] == 'fn' else cb))
    # dispose
    for file, field in sorted(m.fields):
        ctx.count("fields holding sources"); ctx.sample("field: %s %s" % (file, field))
        d = vfunc(p, file, 'dispose')
        if d is None: raise AnalysisBroken("no dispose function in " + file)
        own = [n for (fl, n), r in p.records.items() if fl == file and any(x['n'] == field for x in r['fields'])]
        if own and not any(n.endswith('Private') for n in own):   # kept in a structure of its own, which is released by a function
            fr = [f for f in p.fns.values() if f.file == file and f.params and any(n.lstrip('_') in f.params[0]['t'] for n in own) and any(n == 'g_free' for n, _ in f.callees)]
            if not fr: raise AnalysisBroken("nothing releases " + own[0])
            for f in fr:
                if field not in f.fields_read or not any(n == RM for n, _ in f.callees): ctx.violation("free:%s:%s" % (os.path.basename(file), field), file, f.line, "%s releases what holds the id of a source in %s without removing it" % (f.name, field))
            continue
        eng = Engine(p, D(m, d, field))
        for st, v in eng.run(d):
            ctx.count("dispose paths")
            if not st.mon[1] and eng_field_live(eng, st, field): ctx.violation("dispose:%s:%s" % (os.path.basename(file), field), file, d.line, "%s: the source whose id is in %s isn't removed (path %s)" % (d.name, field, trace_str(st.trace)))
        ctx.used(eng)
    # callbacks which end
    guarded = {}
    for k in res:
        for st, v in res[k][1]:
            for x in st.mon[3]:
                if x[0] == 'kept' and not (p.fns[k].static and p.fns[k].name not in refs): guarded[(k[0], x[1][2])] = guarded.get((k[0], x[1][2]), True) and x[3]
    for (file, field), other in PAIR.items():
        if guarded.get((file, other)): guarded[(file, field)] = True
    for file, field, cb, timeout in sorted(m.cbs, key=repr):
        if cb[0] != 'fn': continue
        f = p.resolve(cb[1], file)
        if f is None or timeout: continue
        if guarded.get((file, field)) is not True: continue
        ctx.count("callbacks of sources which are asked for"); ctx.sample("ends: %s %s" % (f.name, field))
        eng = Engine(p, D(m, f, field))
        for st, v in eng.run(f):
            ctx.count("callback paths")
            if eng.truth(st, v) is not False: continue
            live = ('reset', field) in st.mon[3] or any(l[0] == 'f' and l[2] == field and eng.truth(st, x) is False for l, x in st.env.items())
            if any(('f', l[1], field) == l and eng.truth(st, ('ld', l)) is False for l in {x[1] for x in st.facts if x[0] == 'ld'}): continue
            if not live: ctx.violation("ended:%s:%s:%s" % (os.path.basename(file), f.name, field), file, f.line, "%s ends its source, but %s says that it runs (path %s)" % (f.name, field, trace_str(st.trace)))
        ctx.used(eng)
    ctx.floor("sources started", 20); ctx.floor("fields holding sources", 9); ctx.floor("functions", 30)

class D(R):
    """mon[1]: ids removed which were in the field; everything of the file is followed"""
    max_depth = 4
    def __init__(self, m, fn, field):
        R.__init__(self, m, fn)
        self.field = field
        self.reach = {k for k in m.direct}
        ch = True
        while ch:
            ch = False
            for f in self.p.fns.values():
                if f.file == fn.file and f.key() not in self.reach and any(g.key() in self.reach and g.file == fn.file for g in self.p.callees(f)): self.reach.add(f.key()); ch = True
    def inline(self, eng, f): return f.file == self.fn.file and not f.variadic and f.key() in self.reach
    def forget(self, *a): pass
def eng_field_live(eng, st, field):
    locs = {l for l in st.env if l[0] == 'f' and l[2] == field} | {f[1] for f in st.facts if f[0] == 'ld' and f[1][0] == 'f' and f[1][2] == field}
    if any(eng.truth(st, ('ld', l)) is False and True for l in locs): return False
    return True
