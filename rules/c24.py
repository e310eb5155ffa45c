"""C24: every accepted connection is counted, served and finished once, within the limit; shutting down waits for sessions."""
import os
from ctxlib import *

CL = "milter/client/milter-client.c"
READ = 1            # G_IO_IN
ERRNO = ('sym', 'param', '#errno', 97)

class Acc(CtxRule):
    """mon: events"""
    limit = 2
    watch = frozenset()
    priv_env = True
    def inline(self, eng, f): return f.file == CL and f.name not in self.stop
    def widen_key(self, eng, st, fr): return None
    def at_loophead(self, eng, st, fr, b):
        if any(e[0] == 'fork' and eng.truth(st, e[1]) is False for e in st.mon): self.m.strayed = True; self.ev(st, 'strayed')
        st.mon = tuple(e for e in st.mon if e[0] not in ('fork', 'watch_child'))
    def on_load(self, eng, st, fr, loc, node):
        if self.watch and any(e[0] == 'freed' and e[1] in self.watch for e in st.mon):
            l = loc
            while l[0] in ('f', 'x'): l = l[1]
            if l[0] == 'd' and l[1] in self.watch and ('freed', l[1]) in st.mon: self.ev(st, 'late', loc[2] if loc[0] == 'f' else '?', node['l'])
    def on_call(self, eng, st, fr, name, args, node):
        a = tuple(eng.canon(st, x) for x in args)
        l = node['l']
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
        if name in self.consts: return self.consts[name](self, eng, st, fr, args, node)
        if name.startswith('g_return_if_fail_warning') or name in ('_exit', 'exit', 'abort'):
            if name == '_exit': self.m.exits.append(st)
            return []
        if name in ('accept', 'accept4'):
            v = self.unknown(eng, st, fr, node, 'accepted'); s = st.copy()
            self.ev(st, 'accept', v, self.m.reached(eng, st, self.m.client), True); eng.constrain(st, v, lo=0)
            self.ev(s, 'accept', v, self.m.reached(eng, s, self.m.client), False); eng.constrain(s, v, eq=-1)
            st.mon = tuple(e for e in st.mon if e[0] != 'skip')
            out = [(st, v), (s, I(-1))]
            if events(s, 'nofds'): return out
            # no descriptors left: errno says so until something else may change it
            t = s.copy(); t.env[('d', ERRNO)] = I(24); self.ev(t, 'nofds')
            s.env[('d', ERRNO)] = self.unknown(eng, s, fr, node, 'errno', ne=24)
            return out + [(t, I(-1))]
        if name == '__errno_location': return [(st, ERRNO)]
        if name in ('g_set_error', 'g_set_error_literal', 'milter_error_emittable_emit', 'g_signal_emit', 'close', 'g_log'): st.env[('d', ERRNO)] = ('sym', 'param', '#changed', 96)
        if name in ('g_usleep', 'usleep', 'sleep', 'nanosleep', 'select', 'poll'): self.ev(st, 'sleep', self.m.reached(eng, st, self.m.client)); self.m.slept.add(st.mon[-1][1] is not False); return [(st, I0)]
        m = re.match(r'milter_event_loop_(add_timeout|add_idle|watch_io|watch_child)(_full)?$', name)
        if m:
            k = {'add_timeout': 1, 'add_idle': 0, 'watch_io': 2, 'watch_child': 1}[m.group(1)] + 1 + (1 if m.group(2) else 0)
            v = self.unknown(eng, st, fr, node, 'source', ne=0)
            b = [x for n, x in enumerate(a) if n != 1] if m.group(2) else list(a)
            self.ev(st, m.group(1), b[0], a[k], a[k + 1], tuple(b[1:3]) if m.group(1) == 'watch_io' else b[1], v)
            return [(st, v)]
        if name == 'milter_event_loop_remove': self.ev(st, 'removed', a[1]); return [(st, I1)]
        if name == 'milter_event_loop_quit': self.ev(st, 'quit', a[0]); return [(st, I0)]
        if name == 'milter_event_loop_run': self.ev(st, 'run', a[0]); return [(st, I0)]
        if name == 'g_io_channel_unix_new':
            v = self.unknown(eng, st, fr, node, 'channel', ne=0); self.ev(st, 'channel', a[0], v); return [(st, v)]
        if name in ('g_io_channel_ref', 'g_io_channel_unref'): self.ev(st, name[13:], a[0]); return [(st, a[0])]
        if name == 'g_io_channel_set_close_on_unref': self.ev(st, 'closes', a[0], a[1]); return [(st, I0)]
        if name == 'milter_client_context_new':
            v = self.unknown(eng, st, fr, node, 'context', ne=0); self.ev(st, 'context', v, a[0]); return [(st, v)]
        m = re.match(r'milter_(writer|reader)_io_channel_new$', name)
        if m: return [(st, ('call', m.group(1), a[0]))]
        if name in ('milter_agent_set_writer', 'milter_agent_set_reader', 'milter_agent_set_event_loop', 'milter_client_context_set_socket_address', 'milter_client_context_set_packet_buffer_size', 'milter_client_context_set_timeout'):
            self.ev(st, 'set', name.split('_set_')[1], a[0], a[1]); return [(st, I0)]
        if name == 'milter_agent_start':
            self.ev(st, 'start', a[0]); return self.fails(eng, st, fr, node, args[1], 'start')
        if name in ('g_signal_connect_data',):
            self.ev(st, 'connect', a[0], a[1], a[2], a[3]); return [(st, self.unknown(eng, st, fr, node, 'handler', ne=0))]
        if name == 'g_signal_handler_disconnect': self.ev(st, 'disconnect', a[0], a[1]); return [(st, I0)]
        if name == 'milter_finished_emittable_emit': self.ev(st, 'finished', a[0]); return [(st, I0)]
        if name == 'milter_error_emittable_emit': self.ev(st, 'error', a[0]); return [(st, I0)]
        if name == 'g_signal_emit':
            self.ev(st, 'emit', sig_of(self.p, fr.fn.file, a[1], node), a[0], a[3:]); return [(st, I0)]
        if name in ('g_list_prepend', 'g_list_append'):
            v = self.unknown(eng, st, fr, node, 'list', ne=0); self.ev(st, 'listed', a[0], a[1], v); return [(st, v)]
        if name == 'g_list_remove':
            v = self.unknown(eng, st, fr, node, 'list'); self.ev(st, 'unlisted', a[0], a[1], v); return [(st, v)]
        if name in ('g_ptr_array_new', 'g_ptr_array_new_with_free_func', 'g_ptr_array_sized_new'):
            v = self.unknown(eng, st, fr, node, 'array', ne=0); return [(st, v)]
        if name == 'g_ptr_array_add': self.ev(st, 'queued', a[0], a[1]); return [(st, I0)]
        if name == 'g_ptr_array_foreach':
            self.ev(st, 'each', a[0], a[1])
            if self.m.done:
                for c in {e for e in [self.m.client]}: 
                    loc = self.m.floc(self.m.done, c); eng.havoc(st, fr, loc, ('done', l), 'done')
            return [(st, I0)]
        if name == 'g_ptr_array_free' or name == 'g_ptr_array_unref': self.ev(st, 'arrayfree', a[0]); return [(st, I0)]
        if name == 'g_free': self.ev(st, 'freed', a[0]); return [(st, I0)]
        if name == 'g_object_unref': self.ev(st, 'objunref', a[0]); return [(st, I0)]
        if name in ('memcpy', 'memmove', '__builtin_memcpy', '__builtin___memcpy_chk') and len(a) > 2:
            self.ev(st, 'copied', a[0], a[1], a[2]); return [(st, a[0])]
        if name == 'milter_client_create_event_loop': return [(st, self.unknown(eng, st, fr, node, 'loop', ne=0))]
        if name in ('g_mutex_lock', 'g_mutex_unlock'): self.ev(st, name[8:], a[0]); return [(st, I0)]
        if name == 'pipe':
            self.ev(st, 'pipe', a[0]); return [(st, I0), (st.copy(), I(-1))]
        if name == 'close': self.ev(st, 'close', a[0]); return [(st, I0)]
        if name == 'milter_client_shutdown' and name in self.stop: self.ev(st, 'shutdown', a[0]); return [(st, I0)]
        if name == 'milter_client_fork':
            if events(st, 'strayed'): return []
            v = self.unknown(eng, st, fr, node, 'pid'); self.ev(st, 'fork', v)
            s, t = st.copy(), st.copy()
            eng.constrain(st, v, eq=0); eng.constrain(s, v, lo=1); eng.constrain(t, v, eq=-1)
            return [(st, v), (s, v), (t, v)]
        if name in self.stop:
            g = self.p.resolve(name, fr.fn.file)
            if g is not None and 'GError **' in (g.params[-1].get('t', '') if g.params else ''): return self.fails(eng, st, fr, node, args[-1], name)
            return None
        if name in ('g_new', 'g_malloc_n', 'g_malloc', 'g_malloc0', 'g_malloc0_n', 'g_slice_alloc', 'g_slice_alloc0'):
            return [(st, self.unknown(eng, st, fr, node, 'data', ne=0))]
        if name == 'g_io_channel_unix_get_fd': return [(st, ('call', 'fd', a[0]))]
        if name == 'g_io_channel_read_chars':
            s = st.copy(); k = self.p.enums.get('G_IO_STATUS_EOF', 2)
            self.ev(st, 'eof', True); self.ev(s, 'eof', False)
            v = ('sym', 'param', '#status', 94); eng.constrain(s, v, ne=k)
            return [(st, I(k)), (s, v)]
        return None

class M:
    """who is who, found from the public functions"""
    def __init__(self, ctx):
        self.ctx, self.p, self.exits, self.done = ctx, ctx.prog, [], None
        self.slept, self.strayed = set(), False
        self.client = ('sym', 'param', '#client', 90)
        p = self.p
        self.active = self.field('milter_client_get_n_processing_sessions')
        # what finishing a session changes
        f = p.need('milter_client_session_finished', CL)
        up = set()
        for st, v in self.run(f, {f.params[0]['n']: self.client}):
            for l, x in st.env.items():
                if l[0] == 'f' and lin(x) == lin(('op', '+', ('ld', l), I1)): up.add(l[2])
        if len(up) != 1: raise AnalysisBroken("the number of finished sessions isn't kept in one field")
        self.done = up.pop()
    def field(self, getter):
        f = self.p.need(getter, CL)
        out = set()
        for st, v in self.run(f, {f.params[0]['n']: self.client}):
            if v[0] == 'ld' and v[1][0] == 'f': out.add(v[1])
        if len(out) != 1: raise AnalysisBroken("%s doesn't return one field" % getter)
        l = out.pop()
        self.base = getattr(self, 'base', l[1])
        return l[2]
    def floc(self, name, client): return ('f', subst_any(self.base, self.client, client), name)
    def reached(self, eng, st, client):
        """whether the limit is reached, None if unknown"""
        n, mx = eng.canon(st, eng.read(st, self.floc(self.active, client))), ('sym', 'param', '#limit', 91)
        if eng.truth(st, mx) is False: return False
        t = eng.truth(st, ('op', '<', n, mx))
        return None if t is None else not t
    def rule(self, stop=(), **k):
        r = Acc(self.p, CL, stop=set(stop) | {'milter_client_get_max_connections', 'milter_client_get_suspend_time_on_unacceptable', 'milter_client_get_max_pending_finished_sessions', 'milter_client_need_maintain', 'milter_client_create_event_loop', 'milter_client_fork', 'milter_client_listen', 'milter_client_listen_channel'})
        r.m = self
        mx = ('sym', 'param', '#limit', 91)
        r.consts = {'milter_client_get_max_connections': lambda r, eng, st, fr, a, n: (eng.constrain(st, mx, lo=0), [(st, eng.canon(st, mx))])[1]}
        for n, v in k.items(): setattr(r, n, v)
        return r
    def run(self, f, args=None, setup=None, rule=None):
        eng = Engine(self.p, rule or self.rule(), budget=400000)
        out = eng.run(f, args, setup)
        self.eng = eng
        self.ctx.used(eng)
        return out

def run(ctx):
    p = ctx.prog
    ctx.explanation = ("The callbacks which accept connections are found by following milter_client_run; each is interpreted together with the idle callbacks, signal handlers and finishers it registers, the state of one carried into the next. "
        "On every path the counters are compared before and after, and what is created, listed, connected, started, reported and freed is compared with what a session needs.")
    seen = set()
    def V(f, key, msg, st=None, line=None):
        if (f.key(), key) in seen: return
        seen.add((f.key(), key))
        ctx.violation("%s:%s" % (f.name, key), f.file, line or f.line, "%s: %s%s" % (f.name, msg, " (path %s)" % trace_str(st.trace) if st else ""))
    m = M(ctx)
    C = m.client
    act, done = m.floc(m.active, C), m.floc(m.done, C)
    # ---- which loop serves sessions, which accept callbacks there are
    mt = [f for f in p.fns.values() if 'multi_thread_mode' in f.fields_written and not f.name.endswith('_init')]
    main = p.need('milter_client_run_loop', CL) if p.resolve('milter_client_run_loop', CL) else p.need('milter_client_run', CL)
    def nomt(eng, st):
        eng.constrain(st, C, ne=0)
        if not mt: st.env[m.floc('multi_thread_mode', C)] = I0
    r = m.rule(stop=['milter_client_shutdown', 'milter_client_cleanup', 'milter_client_daemonize'])
    m.exits = []
    ends = m.run(main, {main.params[0]['n']: C}, nomt, r)
    eng0 = m.eng
    watchers = {}
    for st in [s for s, _ in ends] + m.exits:
        for e in events(st, 'watch_io'):
            g = p.resolve(e[2][1], CL) if e[2][0] == 'fn' else None
            if g is None or not (e[4][1][0] == 'i' and e[4][1][1] & READ) or e[4][1][1] & 8: continue     # the ones for errors, or both
            w = watchers.setdefault(g.key(), (g, set()))[1]
            if events(st, 'run'): w.add(not any(x[1] == e[1] for x in events(st, 'run')))      # whether another loop than the one which runs accepts, in its own thread
    ctx.count("accept callbacks", len(watchers)); ctx.floor("accept callbacks", 2)
    setups = {}
    for g, how in watchers.values():
        nacc = 0
        arg = {g.params[2]['n']: C}
        chan = ('sym', 'param', g.params[0]['n'], 0)
        m.slept = set()
        res = m.run(g, arg, nomt, m.rule(stop=['milter_client_shutdown']))
        if True in m.slept and False in how: V(g, 'sleeps', "waits for sessions to finish while they can't, because it is their event loop which waits")
        for st, v in res:
            eng = m.eng
            ctx.count("paths of accepting")
            acc = events(st, 'accept')
            n1, d1 = eng.canon(st, eng.read(st, act)), eng.canon(st, eng.read(st, done))
            delta = lin(('op', '-', n1, ('ld', act)))
            if lin(d1) != lin(('ld', done)): V(g, 'done', "a session counts as finished when a connection is accepted", st)
            if len(acc) > 1: V(g, 'twice', "more than one connection is accepted at once", st)
            if any(e[2] is not False for e in acc): V(g, 'limit', "a connection may be accepted although the limit is reached", st)
            ok = bool(acc) and acc[0][3]
            starts = events(st, 'context'); later = [e for e in events(st, 'add_idle')]
            t = eng.truth(st, v)
            if not acc:
                if m.reached(eng, st, C) is not True: V(g, 'refuses', "a connection isn't accepted although the limit isn't reached", st); continue
                if t is not True:
                    tm = events(st, 'add_timeout')
                    if len(tm) == 1: resume(m, V, g, tm[0], st, eng, C)
                    elif eng.truth(st, eng.read(st, m.floc('accept_suspend_id', C))) is not True: V(g, 'forgets', "stops accepting and nothing makes it go on", st)
            elif t is False and not events(st, 'shutdown'): V(g, 'stops', "stops accepting for good", st)
            if not ok:
                if events(st, 'nofds') and not events(st, 'sleep', 'add_timeout'): V(g, 'spins', "goes on accepting at once although there are no file descriptors left", st)
                if delta != lin(I0): V(g, 'count0', "a session is counted though nothing was accepted", st)
                if starts or later or events(st, 'channel'): V(g, 'nothing', "a session is started though nothing was accepted", st)
                continue
            nacc += 1
            if delta != lin(I1): V(g, 'count1', "an accepted connection isn't counted exactly once", st)
            ch = events(st, 'channel')
            if len(ch) != 1 or ch[0][1] != acc[0][1]: V(g, 'channel', "the accepted connection isn't the one which is used", st); continue
            ch = ch[0][2]
            if ('closes', ch, I1) not in st.mon: V(g, 'close', "the connection isn't closed when it isn't needed any more", st)
            if bool(starts) + len(later) != 1 or len(starts) > 1: V(g, 'handed', "an accepted connection isn't handed on exactly once", st); continue
            if starts: session(m, ctx, V, g, st, eng, ch, C, setups)
            else:
                e = later[0]
                h = p.resolve(e[2][1], CL) if e[2][0] == 'fn' else None
                if h is None: V(g, 'handed', "an accepted connection isn't handed on exactly once", st); continue
                if sum(1 for x in st.mon if x == ('ref', ch)) != sum(1 for x in st.mon if x == ('unref', ch)) : V(g, 'keeps', "the connection isn't kept for who it's handed to", st)
                cp = [x for x in events(st, 'copied')]
                env = {l: eng.canon(st, x) for l, x in st.env.items() if l[0] == 'f'}
                facts = dict(st.facts)
                def carry(e2, s, env=env, facts=facts):
                    s.env.update(env); s.facts.update(facts); nomt(e2, s)
                if not any(x[0][0] == '&' and val_mentions(x[0], lambda y: y == e[3]) for x in [c[1:] for c in cp]) and not any(l[0] == 'f' and val_mentions(l, lambda y: y == e[3]) and 'address' in l[2] for l in env): V(g, 'address', "the peer's address isn't handed on", st)
                for s2, v2 in m.run(h, {h.params[0]['n']: e[3]}, carry, m.rule(stop=['milter_client_shutdown'], watch=frozenset([e[3]]))):
                    ctx.count("paths of starting later")
                    e2 = m.eng
                    if e2.truth(s2, v2) is not False: V(h, 'again', "a connection is handed on more than once", s2)
                    if lin(e2.canon(s2, e2.read(s2, act))) != lin(n1): V(h, 'count', "a session is counted again", s2)
                    if len(events(s2, 'context')) != 1: V(h, 'handed', "an accepted connection doesn't get its context", s2); continue
                    for x in events(s2, 'late'): V(h, 'late', "%s is used after it was freed" % x[1], s2, x[2])
                    session(m, ctx, V, h, s2, e2, ch, C, setups)
        if not nacc: V(g, 'never', "never accepts")
    ctx.floor("paths of sessions started", 3)
    # ---- finishing
    fin = {}
    for h, dl in setups.values():
        if h is None: continue
        D = ('sym', 'param', '#data', 92); ctxo = ('sym', 'param', '#context', 93)
        lay = {k: v for k, v in dl}
        def setup(eng, s):
            nomt(eng, s); eng.constrain(s, D, ne=0)
            for n, what in dl: s.env[('f', ('d', D), n)] = {'client': C, 'context': ctxo, 'priv': m.base[1] if m.base[0] == 'd' else C}[what]
        arrays = None
        for st, v in m.run(h, {h.params[0]['n']: ctxo, h.params[-1]['n']: D}, setup, m.rule(watch=frozenset([D]))):
            eng = m.eng
            ctx.count("paths of finishing")
            q = events(st, 'queued')
            if len(q) != 1 or q[0][2] != D: V(h, 'queued', "a finished session isn't noted once", st); continue
            arr = q[0][1]
            idle = [e for e in events(st, 'add_idle', 'add_timeout')]
            each = [n for n, e in enumerate(st.mon) if e[0] == 'each' and e[1] == arr]
            at = next(n for n, e in enumerate(st.mon) if e[0] == 'queued')
            if len(idle) > 1 or len(each) > 1 or (each and idle): V(h, 'twice', "finished sessions are cleaned up twice", st)
            fid = [l for l, x in st.env.items() if idle and x == idle[0][5]]
            if each:
                if each[0] < at: V(h, 'early', "a session which just finished isn't cleaned up with the others", st)
                batch(m, V, h, st, eng, arr, C)
            elif idle:
                g = p.resolve(idle[0][2][1], CL)
                fin[g.key()] = (g, idle[0][3] == D, tuple(dl), setup, D)
            else:
                # one is already waiting
                ids = [x for x in st.facts if x[0] == 'ld' and x[1][0] == 'f' and x[1][2].endswith('_id') and eng.truth(st, x) is True and x[1][2] != 'finished_handler_id' and x[1] not in st.env]
                if not ids: V(h, 'forgets', "a finished session isn't cleaned up later", st)
            for e in events(st, 'late'): V(h, 'late', "%s is used after the session was freed" % e[1], st, e[2])
    ctx.count("finishers", len(fin)); ctx.floor("finishers", 1)
    procs = {}
    for g, isd, dl, setup, D in fin.values():
        nb = 0
        for st, v in m.run(g, {g.params[0]['n']: D}, setup, m.rule()):
            eng = m.eng
            ctx.count("paths of finishing")
            if eng.truth(st, v) is not False: V(g, 'again', "the finisher runs for ever", st)
            for e in events(st, 'each'):
                nb += 1
                if e[2][0] == 'fn': procs[e[2][1]] = (dl, setup, D)
                batch(m, V, g, st, eng, e[1], C)
        if not nb: V(g, 'never', "finished sessions are never cleaned up")
    for name, (dl, setup, D) in procs.items():
        f = p.resolve(name, CL)
        ctxo = ('sym', 'param', '#context', 93)
        quits = set()
        for st, v in m.run(f, {f.params[0]['n']: D}, setup, m.rule(watch=frozenset([D]))):
            eng = m.eng
            ctx.count("paths of finishing")
            n1, d1 = eng.canon(st, eng.read(st, act)), eng.canon(st, eng.read(st, done))
            if lin(('op', '-', n1, ('ld', act))) != lin(I(-1)) and not (n1[0] == 'i' and eng.cons(st, ('ld', act))[:2] == (n1[1] + 1, n1[1] + 1)): V(f, 'count', "a finished session isn't taken off the number of open ones exactly once", st)
            if lin(('op', '-', d1, ('ld', done))) != lin(I1): V(f, 'done', "a finished session isn't counted as finished exactly once", st)
            un = events(st, 'unlisted')
            if len(un) != 1 or un[0][2] != D or not any(l[0] == 'f' and x == un[0][3] and un[0][1] == ('ld', l) for l, x in st.env.items()): V(f, 'listed', "a finished session stays among the open ones", st)
            if st.mon.count(('freed', D)) != 1 or st.mon.count(('objunref', ctxo)) != 1: V(f, 'freed', "a finished session isn't freed once", st)
            for e in events(st, 'late'): V(f, 'late', "%s is used after the session was freed" % e[1], st, e[2])
            qs = events(st, 'quit')
            zero = nonzero(eng, st, n1)
            quitting = eng.truth(st, ('ld', m.floc('quitting', C)))
            lp = eng.truth(st, ('ld', m.floc('event_loop', C)))
            if qs and not (zero is False and quitting): V(f, 'quits', "the loop quits while sessions are open or nobody asked for it", st)
            if not qs and quitting is not False and lp is not False and zero is not True: V(f, 'waits', "the loop doesn't quit when the last session finished while shutting down", st)
            if qs: quits.add(1)
            locks(V, f, st)
        if not quits: V(f, 'never', "never ends a loop which was shut down")
        ctx.count("functions finishing a session")
    ctx.floor("functions finishing a session", 1)
    # ---- shutting down
    f = p.need('milter_client_shutdown', CL)
    some = set()
    for st, v in m.run(f, {f.params[0]['n']: C}, nomt):
        eng = m.eng
        ctx.count("paths of shutting down")
        locks(V, f, st)
        before = eng.truth(st, ('ld', m.floc('quitting', C)))
        qs = [e for e in events(st, 'quit') if e[1] == eng.canon(st, ('ld', m.floc('event_loop', C)))]
        if before is True:
            if events(st, 'quit'): V(f, 'again', "quits again", st)
            continue
        if eng.truth(st, eng.read(st, m.floc('quitting', C))) is not True: V(f, 'flag', "that it is shutting down isn't noted", st)
        zero = nonzero(eng, st, ('ld', act))
        if bool(qs) != (zero is False): V(f, 'quits', "the loop quits while sessions are open, or stays though none is", st)
        some.add(bool(qs))
        for n in ('accept_watch_id', 'accept_error_watch_id', 'listening_channel'):
            x = eng.read(st, m.floc(n, C))
            if eng.truth(st, x) is not False: V(f, 'accepts', "goes on accepting (%s)" % n, st)
            if eng.truth(st, ('ld', m.floc(n, C))) is True and not any(e[0] in ('removed', 'unref') and e[1] == ('ld', m.floc(n, C)) for e in st.mon): V(f, 'accepts', "goes on accepting (%s)" % n, st)
    if some != {True, False}: V(f, 'never', "doesn't depend on open sessions")
    # ---- workers
    workers(m, ctx, V, ends, eng0, C, p)

def resume(m, V, g, e, st, eng, C):
    h = m.p.resolve(e[2][1], CL) if e[2][0] == 'fn' else None
    if h is None: return V(g, 'forgets', "stops accepting and nothing makes it go on", st)
    env = {l: eng.canon(st, x) for l, x in st.env.items() if l[0] == 'f'}
    facts = dict(st.facts)
    def carry(e2, s): s.env.update(env); s.facts.update(facts); eng.constrain(s, C, ne=0)
    for s2, v2 in m.run(h, {h.params[0]['n']: e[3]}, carry, m.rule()):
        w = [x for x in events(s2, 'watch_io') if x[2][:2] == ('fn', g.name) and x[4][1][0] == 'i' and x[4][1][1] & READ]
        if m.eng.truth(s2, v2) is True: continue
        if not w and not events(s2, 'add_timeout'): V(h, 'resume', "doesn't go on accepting", s2)

def session(m, ctx, V, f, st, eng, ch, C, setups):
    """a context which is set up on this path"""
    ctx.count("paths of sessions started")
    i = lambda pred: next((n for n, e in enumerate(st.mon) if pred(e)), None)
    v, cl = events(st, 'context')[0][1:]
    if cl != C: V(f, 'client', "the context belongs to another client", st)
    starts = [n for n, e in enumerate(st.mon) if e[0] == 'start']
    if len(starts) != 1 or st.mon[starts[0]][1] != v: return V(f, 'start', "the session isn't started once", st)
    at = starts[0]
    before = st.mon[:at]
    sets = {e[1]: e[3] for e in before if e[0] == 'set' and e[2] == v}
    if sets.get('writer') != ('call', 'writer', ch) or sets.get('reader') != ('call', 'reader', ch): V(f, 'io', "the session doesn't read from and write to its connection", st)
    el = sets.get('event_loop')
    if el != eng.canon(st, eng.read(st, m.floc('event_loop', C))): V(f, 'loop', "the session doesn't run in the client's loop", st)
    if not {'socket_address', 'timeout', 'packet_buffer_size'} <= set(e[1] for e in st.mon if e[0] == 'set' and e[2] == v): V(f, 'settings', "the session doesn't get its address, timeout or buffer size", st)
    for n in ('timeout', 'packet_buffer_size'):
        if n in sets and not (sets[n][0] == 'ld' and sets[n][1][0] == 'f' and sets[n][1][2].endswith(n) and sets[n][1][1] == m.floc('x', C)[1]): V(f, 'settings', "the session's %s isn't the client's" % n, st)
    con = [e for e in before if e[0] == 'connect' and e[1] == v and e[2][0] == 's' and norm(e[2][1]) == 'finished']
    if len(con) != 1 or con[0][3][0] != 'fn': return V(f, 'connect', "the end of the session isn't listened for once, before it starts", st)
    D = con[0][4]
    names = {}
    for l, x in st.env.items():
        if l[0] == 'f' and l[1] == ('d', D):
            if x == C: names[l[2]] = 'client'
            elif x == v: names[l[2]] = 'context'
            elif x == m.base[1] or (m.base[0] == 'd' and x == m.base[1]): names[l[2]] = 'priv'
    if not {'client', 'context'} <= set(names.values()): V(f, 'data', "what is needed to finish the session isn't kept", st)
    li = [e for e in before if e[0] == 'listed' and e[2] == D]
    if len(li) != 1 or not any(l[0] == 'f' and x == li[0][3] and li[0][1] == ('ld', l) for l, x in st.env.items()): V(f, 'listed', "the session isn't put on the list of open sessions once, before it starts", st)
    after = st.mon[at:]
    failed = ('failed', 'start') in after
    nf = sum(1 for e in after if e == ('finished', v)); ne = sum(1 for e in after if e[0] == 'emit' and e[1] == 'connection-established')
    if failed and (nf != 1 or ne): V(f, 'failed', "a session which can't be started isn't finished exactly once", st)
    if failed and not any(e[0] == 'error' for e in after): V(f, 'silent', "that a session can't be started isn't reported", st)
    if not failed and (nf or ne != 1 or not any(e[0] == 'emit' and e[1] == 'connection-established' and e[3] == (v,) for e in after)): V(f, 'established', "a started session isn't announced exactly once", st)
    setups[con[0][3][1]] = (m.p.resolve(con[0][3][1], CL), tuple(sorted(names.items())))

def batch(m, V, f, st, eng, arr, C):
    """finished sessions are cleaned up on this path"""
    if st.mon.count(('arrayfree', arr)) != 1: V(f, 'array', "the list of finished sessions isn't freed once", st)
    if any(x == arr for l, x in st.env.items() if l[0] == 'f') or (arr[0] == 'ld' and arr[1] not in st.env): V(f, 'kept', "the list of finished sessions is kept after it was freed", st)
    done = m.floc(m.done, C)
    em = [e for e in events(st, 'emit') if e[1] == 'sessions-finished']
    now = eng.canon(st, eng.read(st, done))
    if len(em) != 1 or lin(em[0][3][0]) != lin(('op', '-', now, ('ld', done))): V(f, 'announced', "the number of finished sessions isn't announced", st)

def nonzero(eng, st, v):
    lo, hi, ex = eng.cons(st, v)
    return False if lo == hi == 0 else True if 0 in ex or lo > 0 or hi < 0 else eng.truth(st, v)

def locks(V, f, st):
    held = 0
    for e in events(st, 'lock', 'unlock'):
        held += 1 if e[0] == 'lock' else -1
        if held not in (0, 1): V(f, 'mutex', "a mutex is locked or unlocked twice", st)
    if held: V(f, 'mutex', "a mutex stays locked", st)

def workers(m, ctx, V, ends, eng, C, p):
    n = 0
    host = p.resolve('client_run_workers', CL) or p.need('milter_client_run_loop', CL)
    seen = 0
    for st in m.exits:
        pi = events(st, 'pipe'); fk = events(st, 'fork')
        if not pi or not fk: continue
        seen += 1
        ctx.count("paths of workers")
        base = pi[0][1]
        rd, wr = pipe_end(base, 0), pipe_end(base, 1)
        closed = [e[1] for e in events(st, 'close')]
        if not any(is_end(x, base, 1) for x in closed): V(host, 'worker-end', "a worker keeps the end of the pipe whose closing would tell it that its master is gone", st)
        ch = [e for e in events(st, 'channel') if is_end(e[1], base, 0)]
        w = [e for e in events(st, 'watch_io') if ch and e[4][0] == ch[-1][2]]
        if not w: V(host, 'worker-watch', "a worker doesn't notice when its master is gone", st); continue
        g = p.resolve(w[-1][2][1], CL) if w[-1][2][0] == 'fn' else None
        if g is None: V(host, 'worker-watch', "a worker doesn't notice when its master is gone", st); continue
        for s2, v2 in m.run(g, {g.params[2]['n']: C}, lambda e2, s: e2.constrain(s, C, ne=0), m.rule(stop=['milter_client_shutdown'])):
            ctx.count("paths of workers")
            eof = ('eof', True) in s2.mon
            if eof and not events(s2, 'shutdown'): V(g, 'gone', "a worker goes on after its master is gone", s2)
            if not eof and events(s2, 'shutdown'): V(g, 'here', "a worker stops though its master is there", s2)
            if eof: n += 1
        if not n: V(g, 'never', "never ends a worker")
    if m.strayed: V(host, 'worker-returns', "a worker goes on as if it were the master")
    if not seen and not m.strayed: raise AnalysisBroken("no worker which ends")
    back = 0
    for st, v in ends:
        fk = events(st, 'fork')
        if not events(st, 'pipe'): continue
        if any(eng.truth(st, e[1]) is False for e in fk) or events(st, 'strayed'): V(host, 'worker-returns', "a worker goes on as if it were the master", st)
        pi = events(st, 'pipe')
        if v != I0 and eng.truth(st, v) is not False:
            base = pi[0][1]
            closed = [e[1] for e in events(st, 'close')]
            if any(is_end(x, base, 1) for x in closed): V(host, 'master-end', "the master closes its end of the pipe, so that workers stop", st)
            ctx.count("paths of masters")
def pipe_end(base, k): return (base, k)
def is_end(x, base, k):
    b = base[1] if base[0] == '&' else ('d', base)
    return x == ('ld', ('x', b, I(k))) or x == ('ld', ('x', b[1], I(k))) if b[0] == 'x' else x == ('ld', ('x', b, I(k)))
