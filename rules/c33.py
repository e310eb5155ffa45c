"""C33: timers, idle callbacks and watches keep their contract in both event loops."""
import os
from ctxlib import *

EL, GL, LE = ("milter/core/milter-%sevent-loop.c" % x for x in ('', 'glib-', 'libev-'))
KINDS = {'watch_io_full': 'io', 'watch_child_full': 'child', 'add_timeout_full': 'timer', 'add_idle_full': 'idle'}
WORD = {'io': 'an I/O watch', 'child': 'a child watch', 'timer': 'a timeout', 'idle': 'an idle callback'}
MAKERS = {'g_io_create_watch': 'io', 'g_child_watch_source_new': 'child', 'g_timeout_source_new': 'timer', 'g_idle_source_new': 'idle'}
DEFAULT = {'io': 0, 'child': 0, 'timer': 0, 'idle': 200}

class Ev(CtxRule):
    """mon: events. callables: values of functions given by the user -> name"""
    callables = {}
    watch = frozenset()      # objects which mustn't be looked at after what may free them
    def inline(self, eng, f): return f.file == self.file
    def at_loophead(self, eng, st, fr, b): st.mon = tuple(e for e in st.mon if e[0] != 'looked')
    def widen_key(self, eng, st, fr): return None
    def on_load(self, eng, st, fr, loc, node):
        if self.watch and loc[0] == 'f' and loc[1][0] == 'd' and loc[1][1] in self.watch:
            if any(e[0] == 'called' or e == ('freed', loc[1][1]) for e in st.mon): self.ev(st, 'late', loc[2], node['l'])
    def on_call(self, eng, st, fr, name, args, node):
        a = tuple(eng.canon(st, x) for x in args)
        if name in ('milter_logger_get_interesting_level',): return [(st, I0)]
        if name.startswith('*'):
            fv = eng.canon(st, eng.ev(st, fr, node['f']))
            who = self.callables.get(fv)
            if who:
                s = st.copy()
                self.ev(st, 'called', who, a, True); self.ev(s, 'called', who, a, False)
                return [(st, I1), (s, I0)] if who == 'function' else [(st, I0)]
            self.ev(st, 'vfunc', name[1:], a)
            return [(st, ('call', 'vfunc', name[1:]))]
        if name in ('memmove', 'memcpy', '__builtin___memmove_chk', '__builtin_memmove') and args[0][0] == args[1][0] == '&':
            if args[0] != args[1]: st.env[args[0][1]] = eng.canon(st, eng.read(st, args[1][1]))
            return [(st, args[0])]
        # glib
        if name in MAKERS:
            v = eng.fresh(st, fr, ('source', node['l']), 'source'); eng.constrain(st, v, ne=0)
            self.ev(st, 'made', MAKERS[name], v, a); return [(st, v)]
        if name == 'g_timeout_source_new_seconds':
            v = eng.fresh(st, fr, ('source', node['l']), 'source'); self.ev(st, 'made', 'whole seconds', v, a); return [(st, v)]
        if name == 'g_main_loop_get_context': return [(st, ('call', 'context', a[0]))]
        if name == 'g_source_attach':
            v = self.unknown(eng, st, fr, node, 'id', ne=0); self.ev(st, 'attach', a[0], a[1], v); return [(st, v)]
        if name == 'g_main_context_find_source_by_id':
            v = self.unknown(eng, st, fr, node, 'found'); self.ev(st, 'find', a[0], a[1], v); return [(st, v)]
        if name in ('g_source_set_priority', 'g_source_set_callback', 'g_source_unref', 'g_source_destroy', 'g_main_context_wakeup', 'g_source_set_ready_time', 'g_source_remove'):
            self.ev(st, name[2:], a); return [(st, I1)]
        if name in ('g_main_context_iteration',): v = self.unknown(eng, st, fr, node, 'dispatched'); self.ev(st, 'iteration', a, v); return [(st, v)]
        # libev
        m = re.match(r'ev_(io|timer|child|idle|async)_(start|stop|again)$', name)
        if m: self.ev(st, m.group(2), m.group(1), a); return [(st, I0)]
        if name in ('ev_run', 'ev_async_send', 'ev_break'): self.ev(st, name, a); return [(st, I1)]
        if name == 'g_io_channel_unix_get_fd': return [(st, ('call', 'fd', a[0]))]
        if name in ('g_new0', 'g_malloc0', 'g_malloc0_n', 'g_malloc_n', 'g_malloc', 'g_slice_alloc0'):
            v = eng.fresh(st, fr, ('new', node['l']), 'new'); eng.constrain(st, v, ne=0); return [(st, v)]
        if name in ('g_hash_table_lookup_extended', 'g_hash_table_lookup', 'g_hash_table_contains'):
            v = self.unknown(eng, st, fr, node, 'used'); st.mon = tuple(e for e in st.mon if e[0] != 'looked') + (('looked', a[0], a[1], v),); return [(st, v)]
        if name in ('g_hash_table_insert', 'g_hash_table_replace', 'g_hash_table_add'): self.ev(st, 'insert', a[0], a[1], a[2]); return [(st, I1)]
        if name == 'g_hash_table_remove':
            v = self.unknown(eng, st, fr, node, 'removed'); self.ev(st, 'remove', a[0], a[1], v); return [(st, v)]
        if name == 'g_hash_table_steal': self.ev(st, 'stolen', a[0], a[1]); return [(st, I1)]
        if name in ('g_hash_table_new_full', 'g_hash_table_new'):
            v = self.unknown(eng, st, fr, node, 'table', ne=0); self.ev(st, 'table', v, a[3] if len(a) > 3 else I0); return [(st, v)]
        if name in ('g_free', 'g_slice_free1'): self.ev(st, 'freed', a[-1]); return [(st, I0)]
        if name == 'g_io_channel_ref': self.ev(st, 'ref', a[0]); return [(st, a[0])]
        if name == 'g_io_channel_unref': self.ev(st, 'unref', a[0]); return [(st, I0)]
        if name == 'milter_event_loop_iterate' and 'milter_event_loop_iterate' in self.stop:
            self.ev(st, 'iterate', a)
            for l in self.havocs: eng.havoc(st, fr, l, ('depth', node['l']), 'depth'); eng.constrain(st, st.env[l], lo=0)
            return [(st, self.unknown(eng, st, fr, node, 'dispatched'))]
        return None
    havocs = ()

def run(ctx):
    p = ctx.prog
    ctx.explanation = ("Every function of both event loops is interpreted abstractly. What a source is made of (channel and condition, process, interval, callback, data, notification, priority) is compared with what was asked for; "
        "for libev each watcher's callback is followed from its registration, with the user's callback answering TRUE or FALSE, into removal and destruction, and nothing of the watcher may be used once it may be gone.")
    seen = set()
    def V(f, key, msg, st=None, line=None):
        if (f.key(), key) in seen: return
        seen.add((f.key(), key))
        ctx.violation("%s:%s:%s" % (os.path.basename(f.file).replace('milter-', '').replace('.c', ''), f.name, key), f.file, line or f.line, "%s: %s%s" % (f.name, msg, " (path %s)" % trace_str(st.trace) if st else ""))
    P_ = lambda f: {x['n']: ('sym', 'param', x['n'], n) for n, x in enumerate(f.params)}
    order = {'io': ('loop', 'priority', 'channel', 'condition', 'function', 'data', 'notify'), 'child': ('loop', 'priority', 'pid', 'function', 'data', 'notify'),
             'timer': ('loop', 'priority', 'interval', 'function', 'data', 'notify'), 'idle': ('loop', 'priority', 'function', 'data', 'notify')}
    def prm(f, kind): return dict(zip(order[kind], [('sym', 'param', x['n'], n) for n, x in enumerate(f.params)]))
    # ---- the public functions
    for slot, kind in KINDS.items():
        base = 'milter_event_loop_' + slot
        full, short = p.need(base, EL), p.need(base[:-5], EL)
        for f in (full, short):
            eng = Engine(p, Ev(p, EL))
            q = [('sym', 'param', x['n'], n) for n, x in enumerate(f.params)]
            if f is short: want = [q[0], I(DEFAULT[kind])] + q[1:] + [I0]
            else: want = q
            some = 0
            for st, v in eng.run(f, None, lambda eng, st: eng.constrain(st, q[0], ne=0)):
                vs = events(st, 'vfunc')
                ctx.count("paths of the interface")
                if not vs: 
                    if v != I0: V(f, 'id', "nothing is started but an id is returned", st)
                    continue
                some += 1
                got = [e for e in vs if e[1] == slot]
                if len(vs) != 1 or not got or list(got[0][2]) != want or v != ('call', 'vfunc', slot): V(f, 'args', "what is asked for isn't handed to the loop as it is, once", st)
            if not some: V(f, 'never', "never asks the loop")
            ctx.used(eng); ctx.count("public functions")
    f = p.need('milter_event_loop_remove', EL); q = [('sym', 'param', x['n'], n) for n, x in enumerate(f.params)]
    eng = Engine(p, Ev(p, EL))
    for st, v in eng.run(f, None, lambda eng, st: eng.constrain(st, q[0], ne=0)):
        if [e[1:] for e in events(st, 'vfunc')] != [('remove', tuple(q))] or v != ('call', 'vfunc', 'remove'): V(f, 'args', "the id isn't handed to the loop", st)
    # depth
    run_ = p.need('milter_event_loop_run_without_custom', EL)
    f = p.need('milter_event_loop_is_running', EL)
    eng = Engine(p, Ev(p, EL)); me = ('sym', 'param', f.params[0]['n'], 0)
    depth = set()
    def fields(v):
        if isinstance(v, tuple):
            if v[:1] == ('ld',) and v[1][0] == 'f': depth.add((v[1]))
            for x in v: fields(x)
    for st, v in eng.run(f, None, lambda eng, st: eng.constrain(st, me, ne=0)): fields(v); [fields(t) for t in st.facts]
    if len(depth) != 1: raise AnalysisBroken("whether a loop runs isn't kept in a single field")
    dl = depth.pop()
    loc = lambda o: subst_any(dl, me, o)
    me = ('sym', 'param', run_.params[0]['n'], 0)
    r = Ev(p, EL, stop=['milter_event_loop_iterate']); r.havocs = [loc(me)]
    eng = Engine(p, r)
    d0 = ('ld', loc(me))
    for st, v in eng.run(run_, None, lambda eng, st: (eng.constrain(st, me, ne=0), eng.constrain(st, d0, lo=0))):
        ctx.count("paths of running")
        its = events(st, 'iterate')
        if not its: V(run_, 'stops', "returns without an iteration", st)
        if any(e[1] != (me, I1) for e in its): V(run_, 'block', "the iterations don't wait for events", st)
        d = eng.canon(st, eng.read(st, loc(me)))
        if eng.truth(st, ('op', '<', d0, d)) is not False and not (eng.cons(st, d)[1] <= eng.cons(st, d0)[0]): V(run_, 'ends', "returns before it was told to quit", st)
    ctx.used(eng)
    f = p.need('milter_event_loop_quit', EL); me = ('sym', 'param', f.params[0]['n'], 0); d0 = ('ld', loc(me))
    eng = Engine(p, Ev(p, EL))
    n = 0
    for st, v in eng.run(f, None, lambda eng, st: (eng.constrain(st, me, ne=0), eng.constrain(st, d0, lo=0))):
        ctx.count("paths of quitting")
        if eng.truth(st, d0) is False: continue
        d = eng.canon(st, eng.read(st, loc(me)))
        if lin(d) != lin(('op', '+', d0, I(-1))): V(f, 'depth', "a running loop isn't told to end exactly once", st)
        if ('vfunc', 'quit', (me,)) not in st.mon: V(f, 'wake', "a waiting loop isn't woken", st)
        n += 1
    if not n: V(f, 'never', "never quits")
    ctx.used(eng)
    # ---- glib
    G = {s: vfunc(p, GL, s) for s in list(KINDS) + ['remove', 'iterate', 'quit']}
    L = {s: vfunc(p, LE, s) for s in list(KINDS) + ['remove', 'iterate', 'quit']}
    for s, f in list(G.items()) + list(L.items()):
        if f is None: raise AnalysisBroken("no function for " + s)
    def context(v, obj): return v[:2] == ('call', 'context') and val_mentions(v, lambda x: x == obj)
    for slot, kind in KINDS.items():
        f = G[slot]; q = prm(f, kind)
        eng = Engine(p, Ev(p, GL))
        for st, v in eng.run(f):
            ctx.count("paths of the GLib loop")
            made = events(st, 'made')
            if len(made) != 1 or made[0][1] != kind: V(f, 'source', "the source made isn't %s" % WORD[kind], st); continue
            s, a = made[0][2], made[0][3]
            if kind == 'io' and a != (q['channel'], q['condition']): V(f, 'made', "another channel or condition is watched", st)
            if kind == 'child' and a != (q['pid'],): V(f, 'made', "another process is watched", st)
            if kind == 'timer' and a[0] not in (('op', '*', q['interval'], I(1000)),) and a[0] != ('op', '*', q['interval'], ('float', 1000.0)) and not millis(a[0], q['interval']): V(f, 'made', "the interval isn't the one in seconds", st)
            cb = [e[1] for e in events(st, 'source_set_callback')]
            if cb != [(s, q['function'], q['data'], q['notify'])]: V(f, 'callback', "the callback, its data or its notification isn't the one given", st)
            pr = [e[1] for e in events(st, 'source_set_priority')]
            if pr:
                if pr[-1] != (s, q['priority']) and pr[-1] != (s, eng.canon(st, q['priority'])): V(f, 'priority', "another priority is set", st)
            elif eng.canon(st, q['priority']) != I(DEFAULT[kind]): V(f, 'priority', "the priority is ignored", st)
            at = [n for n, e in enumerate(st.mon) if e[0] == 'attach']
            if len(at) != 1 or st.mon[at[0]][1] != s or not context(st.mon[at[0]][2], q['loop']) or st.mon[at[0]][3] != v: V(f, 'attach', "the source isn't attached once to the loop's context, its id returned", st)
            elif any(e[0].startswith('source_set') for e in st.mon[at[0]:]): V(f, 'order', "the source is attached before it is complete", st)
            if [e[1] for e in events(st, 'source_unref')] != [(s,)]: V(f, 'unref', "the reference to the source isn't given up once", st)
            if events(st, 'source_destroy'): V(f, 'destroy', "the source is destroyed", st)
        ctx.used(eng); ctx.count("adapter functions")
    f = G['remove']; a = [('sym', 'param', x['n'], n) for n, x in enumerate(f.params)]
    eng = Engine(p, Ev(p, GL)); both = set()
    for st, v in eng.run(f):
        ctx.count("paths of the GLib loop")
        fi = events(st, 'find')
        if len(fi) != 1 or not context(fi[0][1], a[0]) or fi[0][2] != a[1]: V(f, 'find', "the source isn't looked for by its id in the loop's context", st); continue
        t = eng.truth(st, fi[0][3]); de = [e[1] for e in events(st, 'source_destroy')]
        r = eng.truth(st, v)
        if r is None and v in (('not', ('not', fi[0][3])), fi[0][3]): r = t
        if t: 
            if de != [(fi[0][3],)]: V(f, 'destroy', "the source isn't destroyed", st)
        elif t is False and de or t is None: V(f, 'destroy', "what isn't there is destroyed", st)
        if r != t: V(f, 'result', "whether the source was there isn't what is returned", st)
    ctx.used(eng)
    f = G['iterate']; a = [('sym', 'param', x['n'], n) for n, x in enumerate(f.params)]
    eng = Engine(p, Ev(p, GL))
    for st, v in eng.run(f):
        it = events(st, 'iteration')
        if len(it) != 1 or not context(it[0][1][0], a[0]) or it[0][1][1] != eng.canon(st, a[1]) or v != it[0][2]: V(f, 'iterate', "isn't one iteration of the loop's context, waiting if asked to", st)
    f = G['quit']; eng = Engine(p, Ev(p, GL))
    for st, v in eng.run(f):
        w = events(st, 'source_x', 'main_context_wakeup')
        if not any(context(e[1][0], ('sym', 'param', f.params[0]['n'], 0)) for e in w): V(f, 'wake', "the loop isn't woken", st)
    # ---- libev
    init = [f for f in p.fns.values() if f.file == LE and f.name.endswith('_init') and f.name.startswith('milter_') and not f.name.endswith('class_init')]
    tables = {}
    for f in init:
        eng = Engine(p, Ev(p, LE))
        for st, v in eng.run(f):
            for l, x in st.env.items():
                for e in events(st, 'table'):
                    if x == e[1] and l[0] == 'f': tables[l[2]] = e[2]
    tables = {k: v for k, v in tables.items() if v[0] == 'fn'}
    if len(tables) != 1: raise AnalysisBroken("watchers aren't kept in one table which destroys them")
    tf, dfn = next(iter(tables.items())); dfn = p.resolve(dfn[1], LE)
    def istable(v): return v[0] == 'ld' and v[1][0] == 'f' and v[1][2] == tf
    for slot, kind in KINDS.items():
        f = L[slot]; q = prm(f, kind)
        def setup(eng, st): pass
        eng = Engine(p, Ev(p, LE))
        done = 0
        for st, v in eng.run(f):
            ctx.count("paths of the libev loop")
            ins, start = events(st, 'insert'), events(st, 'start', 'again')
            if eng.truth(st, v) is False or v == I0:
                if ins or start: V(f, 'zero', "0 is returned although something was started", st)
                continue
            done += 1
            if len(ins) != 1 or not istable(ins[0][1]) or ins[0][2] != v: V(f, 'insert', "the watcher isn't kept under the id returned", st); continue
            w = ins[0][3]
            looked = events(st, 'looked')
            if not eng.truth(st, v) and 0 not in eng.cons(st, v)[2]: V(f, 'id0', "the id may be 0", st)
            if not any(istable(e[1]) and e[2] == v and eng.truth(st, e[3]) is False for e in looked): V(f, 'idused', "the id may be one which is in use", st)
            if len(start) != 1 or start[0][1] != kind or start[0][2][1] != w or not val_mentions(start[0][2][0], lambda x: x == q['loop']): V(f, 'start', "the watcher isn't started as what it is, once", st); continue
            C = lambda n: eng.canon(st, eng.read(st, ('f', ('d', w), n)))
            if kind == 'io' and C('fd') != ('call', 'fd', q['channel']): V(f, 'fd', "another descriptor is watched", st)
            if kind == 'timer' and (C('at') != q['interval'] or C('repeat') != q['interval']): V(f, 'interval', "the interval isn't the one given, first and repeatedly", st)
            if kind == 'child' and C('pid') != q['pid']: V(f, 'pid', "another process is watched", st)
            if kind == 'io' and events(st, 'ref') != [('ref', q['channel'])]: V(f, 'ref', "the channel isn't referenced once while it is watched", st)
            evloop = start[0][2][0]
            cb = C('cb')
            g = p.resolve(cb[1], LE) if cb[0] == 'fn' else None
            if g is None: V(f, 'cb', "the watcher has no callback", st); continue
            wp = C('data')
            env = {l: eng.canon(st, x) for l, x in st.env.items() if l[0] == 'f'}
            calls = {q['function']: 'function', q['notify']: 'notify'}
            # the callback
            r = Ev(p, LE); r.callables = calls; r.watch = frozenset([w, wp])
            e2 = Engine(p, r)
            rev = ('sym', 'param', g.params[2]['n'], 2)
            def setup2(eng, s):
                s.env.update(env)
                for x in (w, wp, q['function']): eng.constrain(s, x, ne=0)
                eng.constrain(s, v, ne=0)
            ans = set()
            for s2, _ in e2.run(g, {g.params[1]['n']: w}, setup2):
                ctx.count("paths of watchers' callbacks")
                ca = [e for e in events(s2, 'called') if e[1] == 'function']
                if len(ca) != 1: V(g, 'once', "the callback isn't called once", s2); continue
                a = ca[0][2]
                if a[-1] != q['data']: V(g, 'data', "the callback doesn't get its data", s2)
                if kind == 'io' and a[0] != q['channel']: V(g, 'channel', "the callback doesn't get its channel", s2)
                if kind == 'child' and (a[0] != ('ld', ('f', ('d', w), 'rpid')) or a[1] != ('ld', ('f', ('d', w), 'rstatus'))): V(g, 'status', "the callback doesn't get the process and its status", s2)
                rm = events(s2, 'remove')
                i = next(n for n, e in enumerate(s2.mon) if e[0] == 'called')
                if any(e[0] == 'remove' for e in s2.mon[:i]): V(g, 'early', "the watcher is removed before its callback is called", s2)
                t = ca[0][3]
                if kind == 'child': t = False
                ans.add(t)
                gone = len(rm) == 1 and istable(rm[0][1]) and rm[0][2] == v
                if t is True and rm: V(g, 'stays', "a source whose callback wants to stay is removed", s2)
                if t is not True and not gone: V(g, 'ends', "a source whose callback is done isn't removed", s2)
                for e in events(s2, 'late'): V(g, 'late', "%s of the watcher is used after its callback, which may have removed it" % e[1], s2, e[2])
                if events(s2, 'stop', 'freed', 'unref'): V(g, 'stop', "the watcher is stopped or freed apart from the table", s2)
            if kind != 'child' and ans != {True, False}: V(g, 'answer', "what the callback answers doesn't matter")
            ctx.used(e2)
            # conditions
            if kind == 'io':
                for m in range(4):
                    r = Ev(p, LE); r.callables = calls; e2 = Engine(p, r)
                    for s2, _ in e2.run(g, {g.params[1]['n']: w, g.params[2]['n']: I(m)}, setup2):
                        for e in events(s2, 'called'):
                            c = e[2][1]; ctx.count("conditions")
                            if c[0] != 'i' or (bool(c[1] & 1), bool(c[1] & 4)) != (bool(m & 1), bool(m & 2)) or c[1] & 0x38: V(g, 'condition', "the condition reported isn't what happened (%d: %s)" % (m, c[-1]), s2)
            # destruction
            for note in (True, False):
                r = Ev(p, LE); r.callables = calls; r.watch = frozenset([w, wp])
                e2 = Engine(p, r)
                def setup3(eng, s):
                    setup2(eng, s)
                    eng.constrain(s, q['notify'], **({'ne': 0} if note else {'eq': 0}))
                    s.env.update({l: I0 for l, x in env.items() if x == q['notify'] and not note})
                for s2, _ in e2.run(dfn, {dfn.params[0]['n']: w}, setup3):
                    ctx.count("paths of destruction")
                    if [e[1:] for e in events(s2, 'stop')] != [(kind, (evloop, w))]: V(f, 'stopped', "the watcher isn't stopped as what it is, once, in the loop it runs in", s2)
                    no = [e for e in events(s2, 'called')]
                    if len(no) != note or any(e[1:3] != ('notify', (q['data'],)) for e in no): V(f, 'notify', "the notification isn't called once with the data", s2)
                    fr = [e[1] for e in events(s2, 'freed')]
                    if sorted(map(repr, fr)) != sorted(map(repr, [w, wp])): V(f, 'freed', "the watcher and its data aren't freed once", s2)
                    if events(s2, 'unref') != ([('unref', q['channel'])] if kind == 'io' else []): V(f, 'unref', "the channel isn't released once", s2)
                    for e in events(s2, 'late'):
                        if any(x[0] == 'freed' for x in s2.mon) and e[1] not in ('x',) and late_freed(s2, e): V(dfn, 'late', "%s of the watcher is used after it was freed" % e[1], s2, e[2])
                ctx.used(e2)
        if not done: V(f, 'never', "nothing is ever started")
        if kind == 'io':
            for c in range(64):
                eng = Engine(p, Ev(p, LE))
                for st, v in eng.run(f, {f.params[3]['n']: I(c)}):
                    for e in events(st, 'insert'):
                        m = eng.canon(st, eng.read(st, ('f', ('d', e[3]), 'events'))); ctx.count("conditions")
                        if m[0] != 'i' or m[1] & 3 != (1 if c & 3 else 0) | (2 if c & 4 else 0): V(f, 'events', "what is watched for isn't what was asked for (condition %d: %s)" % (c, m[-1]), st)
        ctx.used(eng); ctx.count("adapter functions")
    f = L['remove']; a = [('sym', 'param', x['n'], n) for n, x in enumerate(f.params)]
    eng = Engine(p, Ev(p, LE))
    for st, v in eng.run(f):
        rm = events(st, 'remove')
        if len(rm) != 1 or not istable(rm[0][1]) or rm[0][2] != a[1]: V(f, 'remove', "the watcher of the id isn't removed", st)
        elif v != rm[0][3] and (eng.truth(st, v) is None or eng.truth(st, v) != eng.truth(st, rm[0][3])): V(f, 'result', "whether it was there isn't what is returned", st)
    f = L['iterate']; a = [('sym', 'param', x['n'], n) for n, x in enumerate(f.params)]
    eng = Engine(p, Ev(p, LE)); both = set()
    for st, v in eng.run(f):
        r_ = events(st, 'ev_run'); t = eng.truth(st, a[1])
        if len(r_) != 1 or r_[0][1][1][0] != 'i': V(f, 'run', "isn't one iteration", st); continue
        fl = r_[0][1][1][1]
        if t is None or fl not in ((2,) if t else (1, 3)): V(f, 'block', "whether it waits isn't what was asked for", st)
        both.add(t)
    f = L['quit']; eng = Engine(p, Ev(p, LE))
    for st, v in eng.run(f):
        if len(events(st, 'ev_async_send')) != 1: V(f, 'wake', "the loop isn't woken", st)
    ctx.floor("adapter functions", 8); ctx.floor("public functions", 8); ctx.floor("paths of watchers' callbacks", 7); ctx.floor("paths of destruction", 8); ctx.floor("conditions", 68)

def late_freed(st, late):
    i = next((n for n, e in enumerate(st.mon) if e[0] == 'freed'), None)
    j = next(n for n, e in enumerate(st.mon) if e == late)
    return i is not None and i < j

def millis(v, x):
    """x * 1000 in some form"""
    if v[0] == 'op' and v[1] == '*':
        for a, b in ((v[2], v[3]), (v[3], v[2])):
            if a == x and (b == I(1000) or b[0] == 'float' and float(b[1]) == 1000.0): return True
    return False
