"""C25: an agent passes on all it reads and writes, listens to exactly its streams, and finishes once."""
from ctxlib import *

class Ag(CtxRule):
    file = AG
    outer = None        # fields which what is called may change
    def widen_key(self, eng, st, fr): return None
    def inline(self, eng, f): return f.file == AG and f.name not in self.stop
    def mark(self, eng, st, *e):
        self.ev(st, *e, self.flags(eng, st) if self.flags else None)
    flags = None
    def on_call(self, eng, st, fr, name, args, node):
        a = tuple(eng.canon(st, x) for x in args)
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
        if name == 'milter_decoder_decode':
            self.ev(st, 'decode', a[:3]); s = st.copy()
            v = self.unknown(eng, s, fr, node, 'decode-error', ne=0); self.set_out(eng, s, fr, args[3], v); self.ev(s, 'bad', v)
            if args[3][0] == '&': st.env.setdefault(args[3][1], I0)
            return [(st, I1), (s, I0)]
        if name == 'milter_utils_set_error_with_sub_error':
            v = self.unknown(eng, st, fr, node, 'error', ne=0); self.set_out(eng, st, fr, args[0], v); self.ev(st, 'wrap', v, a[3]); return [(st, I0)]
        if name == 'g_error_copy': return [(st, ('call', 'copied', a[0]))]
        if name in ('g_set_error', 'g_set_error_literal'): self.ev(st, 'set-error', a[0]); return [(st, I0)]
        if name == 'milter_error_emittable_emit': self.ev(st, 'error', a[0], a[1]); return [(st, I0)]
        if name == 'milter_finished_emittable_emit': self.mark(eng, st, 'finished', a[0]); return [(st, I0)]
        if name in ('milter_reader_shutdown', 'milter_writer_shutdown'):
            self.mark(eng, st, 'down', name[7:13], a[0])
            if self.outer and name == 'milter_reader_shutdown':
                # its finished handler drops the reader and finishes the agent, now or, if it reads on, later
                s = st.copy()
                for l, v in self.outer: st.env[l] = v
                return [(st, I0), (s, I0)]
            return [(st, I0)]
        if name in ('milter_reader_start', 'milter_writer_start'): self.ev(st, 'start', name[7:13], a[0], a[1]); return [(st, I0)]
        if name in ('milter_reader_set_tag', 'milter_writer_set_tag', 'milter_decoder_set_tag', 'milter_encoder_set_tag'): self.ev(st, 'tag', a[0], a[1]); return [(st, I0)]
        if name == 'milter_writer_is_watching':
            s = st.copy(); self.ev(st, 'watching', True); self.ev(s, 'watching', False); return [(st, I1), (s, I0)]
        if name in ('milter_writer_write', 'milter_writer_flush'):
            self.ev(st, name[14:], a[:-1]); n = len(a) - 1; s = st.copy()
            if args[n][0] == '&':
                v = self.unknown(eng, s, fr, node, 'io-error', ne=0); s.env[args[n][1]] = v
            else: self.ev(s, 'passed-error', a[n])
            self.ev(s, 'failed', name[14:])
            return [(st, I1), (s, I0)]
        if name.startswith('*') and name.endswith('flush'):
            self.ev(st, 'vflush', a[0]); s = st.copy()
            if args[1][0] == '&':
                v = self.unknown(eng, s, fr, node, 'io-error', ne=0); s.env[args[1][1]] = v
            else: self.ev(s, 'passed-error', a[1])
            self.ev(s, 'failed', 'flush'); return [(st, I1), (s, I0)]
        if name in ('g_signal_connect_data',):
            self.ev(st, 'on', a[0], a[1][1] if a[1][0] == 's' else '?', a[2][1] if a[2][0] == 'fn' else '?', a[3]); return [(st, self.unknown(eng, st, fr, node, 'id', ne=0))]
        if name == 'g_signal_handlers_disconnect_matched':
            self.ev(st, 'off', a[0], a[5][1] if a[5][0] == 'fn' else '*', a[6]); return [(st, I1)]
        if name == 'g_object_ref': self.ev(st, 'ref', a[0]); return [(st, a[0])]
        if name == 'g_object_unref': self.ev(st, 'unref', a[0]); return [(st, I0)]
        if name == 'g_signal_emit': self.ev(st, 'emit', sig_of(self.p, fr.fn.file, a[1], node), a[0]); return [(st, I0)]
        if name in ('g_timer_start', 'g_timer_stop'): self.ev(st, name[2:], a[0]); return [(st, I0)]
        if name == 'g_timer_new':
            v = self.unknown(eng, st, fr, node, 'timer', ne=0); self.ev(st, 'timer_new', v); return [(st, v)]
        return None

def run(ctx):
    p = ctx.prog
    ctx.explanation = ("The functions of the agent and the handlers it connects to its reader and writer (found where they are connected) are interpreted abstractly, each call to the decoder, writer or flush succeeding or failing; "
        "what is passed on, connected, reported, shut down and announced on each path is compared with what the agent's state asks for.")
    seen = set()
    def V(f, key, msg, st=None):
        if (f.key(), key) in seen: return
        seen.add((f.key(), key))
        ctx.violation("%s:%s" % (f.name, key), f.file, f.line, "%s: %s%s" % (f.name, msg, " (path %s)" % trace_str(st.trace) if st else ""))
    def P(f): return [('sym', 'param', x['n'], n) for n, x in enumerate(f.params)]
    def go(f, setup=None, rule=None, **k):
        if isinstance(f, str): f = p.need(f, AG)
        r = rule or Ag(p, AG, **k)
        eng = Engine(p, r, budget=200000); q = P(f)
        out = eng.run(f, None, lambda e, s: ([e.constrain(s, x, ne=0) for x, d in zip(q, f.params) if re.match(r'Milter(Agent|Reader|Writer|FinishedEmittable) \*', d['t']) and d['n'] not in ('reader', 'writer') or d['n'] == 'user_data'], setup(e, s) if setup else None))
        ctx.used(eng); ctx.count("functions interpreted"); ctx.count("paths", len(out))
        if not out: raise AnalysisBroken("%s has no path" % f.name)
        return f, q, eng, out
    # ---- where things are kept
    def kept(setter):
        f, q, eng, out = go(setter)
        l = {l for st, v in out for l, x in st.env.items() if l[0] == 'f' and x == q[1]}
        if len(l) != 1: raise AnalysisBroken("%s doesn't keep what it is given in one field" % setter)
        return l.pop(), q[0]
    loc, hand = {}, {}
    for what in ('reader', 'writer', 'event_loop', 'tag'):
        l, me = kept('milter_agent_set_' + what)
        loc[what] = lambda o, l=l, me=me: subst_any(l, me, o)
    l, me_ = getter_loc(p, 'milter_agent_get_decoder', AG); loc['decoder'] = me_
    fin = vfunc(p, AG, 'finished')
    f, q, eng, out = go(fin)
    fl = {l for st, v in out for l, x in st.env.items() if l[0] == 'f' and x == I1}
    if len(fl) != 1: V(fin, 'flag', "the agent isn't marked as finished"); return
    fl = fl.pop(); loc['finished'] = lambda o, l=fl, me=q[0]: subst_any(l, me, o)
    # ---- streams
    SIGS = {'reader': {'flow', 'error', 'finished'}, 'writer': {'flushed', 'error', 'finished'}}
    for what in ('reader', 'writer'):
        f = p.need('milter_agent_set_' + what, AG); q = P(f)
        for old in (True, False):
            for new in (True, False):
                OLD = ('sym', 'old', '#' + what, 0)
                def setup(e, s):
                    s.env[loc[what](q[0])] = OLD if old else I0
                    if old: e.constrain(s, OLD, ne=0)
                    e.constrain(s, q[1], **({'ne': 0} if new else {'eq': 0}))
                _, _, eng, out = go(f, setup)
                for st, v in out:
                    ctx.count("changes of streams")
                    if old and new and not events(st, 'on', 'off', 'ref', 'unref') and eng.read(st, loc[what](q[0])) == OLD and same(eng, st, OLD, q[1]): continue      # the same one
                    on = events(st, 'on'); off = events(st, 'off')
                    cur = eng.canon(st, eng.read(st, loc[what](q[0])))
                    if cur != (q[1] if new else I0) and not (not new and eng.truth(st, cur) is False): V(f, 'kept', "the new %s isn't the one kept" % what, st)
                    if new:
                        for e in on: hand.setdefault((what, e[2]), set()).add(e[3])
                        if {e[2] for e in on} != SIGS[what] or len(on) != len(SIGS[what]) or any(e[1] != q[1] or e[4] != q[0] for e in on): V(f, 'on', "the agent doesn't listen to exactly the signals of its new %s, with itself" % what, st)
                        if [e[1] for e in events(st, 'ref')] != [q[1]]: V(f, 'ref', "the new %s isn't kept alive once" % what, st)
                        if ('tag', q[1], eng.canon(st, eng.read(st, loc['tag'](q[0])))) not in st.mon: V(f, 'tag', "the new %s doesn't get the agent's tag" % what, st)
                    elif on or events(st, 'ref'): V(f, 'on', "something is listened to though there is no new %s" % what, st)
                    un = [e[1] for e in events(st, 'unref')]
                    if old:
                        if un != [OLD]: V(f, 'unref', "the old %s isn't given up once" % what, st)
                        offs = {e[2] for e in off if e[1] == OLD and e[3] == q[0]}
                        want = {h for (w, s_), hs in hand.items() if w == what for h in hs}
                        if '*' not in offs and want - offs: V(f, 'off', "the agent goes on listening to the old %s" % what, st)
                        if any(e[0] == 'off' and OLD in un and st.mon.index(e) > st.mon.index(('unref', OLD)) for e in off): V(f, 'late', "the old %s is used after it was given up" % what, st)
                        if what == 'writer':
                            fi = index(st, lambda e: e[0] in ('vflush', 'flush'))
                            if ('watching', True) in st.mon and (fi is None or off and fi > st.mon.index(off[0])): V(f, 'flush', "what the old writer still has isn't flushed first", st)
                    elif un or off: V(f, 'unref', "something is given up though there was no %s" % what, st)
    for k, s in SIGS.items():
        for n in s:
            if len(hand.get((k, n), ())) != 1: V(p.need('milter_agent_set_' + k, AG), 'on', "%s of the %s has no handler" % (n, k)); return
    H = lambda w, n: p.need(next(iter(hand[(w, n)])), AG)
    # ---- what is read
    f = H('reader', 'flow'); q = P(f); me = q[-1]
    for st, v in go(f)[3]:
        eng = None
        ctx.count("handlers' paths")
        d = events(st, 'decode'); bad = events(st, 'bad'); er = events(st, 'error')
        if [e[1] for e in d] != [(('ld', loc['decoder'](me)), q[1], q[2])]: V(f, 'decode', "what was read isn't handed to the decoder as it is, once", st)
        if bad:
            w = events(st, 'wrap')
            if len(er) != 1 or er[0][1] != me or not (er[0][2] == bad[0][1] or len(w) == 1 and er[0][2] == w[0][1] and w[0][2] in (bad[0][1], ('call', 'copied', bad[0][1]))): V(f, 'error', "failing to decode isn't reported once, with its cause", st)
        elif er: V(f, 'error', "an error is reported though there was none", st)
        if events(st, 'finished', 'down', 'unref', 'off'): V(f, 'more', "the agent ends when it reads", st)
    for w in ('reader', 'writer'):
        f = H(w, 'error'); q = P(f); me = q[-1]
        for st, v in go(f)[3]:
            ctx.count("handlers' paths")
            er, wr = events(st, 'error'), events(st, 'wrap')
            if len(er) != 1 or er[0][1] != me or not (er[0][2] == q[1] or len(wr) == 1 and er[0][2] == wr[0][1] and wr[0][2] == ('call', 'copied', q[1])): V(f, 'error', "an error of the %s isn't reported once, with its cause" % w, st)
            if events(st, 'finished'): V(f, 'ends', "the agent finishes on an error", st)
    f = H('writer', 'flushed'); q = P(f)
    for st, v in go(f)[3]:
        ctx.count("handlers' paths")
        if [e[1:] for e in events(st, 'emit')] != [('flushed', q[-1])]: V(f, 'flushed', "that all was written isn't announced once", st)
    # ---- streams which finish
    for w in ('reader', 'writer'):
        f = H(w, 'finished'); q = P(f); me = q[-1]
        OLD = ('sym', 'old', '#' + w, 0)
        for done in (0, 1):
            r = Ag(p, AG); r.flags = lambda e, s: eval_truth(e, s, loc[w](me))
            _, _, eng, out = go(f, lambda e, s: (s.env.__setitem__(loc[w](me), OLD), e.constrain(s, OLD, ne=0), s.env.__setitem__(loc['finished'](me), I(done))), r)
            for st, v in out:
                ctx.count("handlers' paths")
                if eng.truth(st, eng.read(st, loc[w](me))) is not False or ('unref', OLD) not in st.mon: V(f, 'dropped', "the %s which finished isn't given up" % w, st)
                fe = events(st, 'finished')
                want = 1 if w == 'reader' and not done else 0
                if len(fe) != want or any(e[1] != me for e in fe): V(f, 'finishes', "the agent doesn't finish once when its reader has" if want else "the agent finishes again or too early", st)
                if any(e[2] is not False for e in fe): V(f, 'order', "the agent finishes while it still has the %s" % w, st)
    # ---- what is written
    f = p.need('milter_agent_write_packet', AG); q = P(f)
    W = ('sym', 'present', '#writer', 0)
    for have in (True, False):
        _, _, eng, out = go(f, lambda e, s: (s.env.__setitem__(loc['writer'](q[0]), W if have else I0), e.constrain(s, W, ne=0), e.constrain(s, q[3], ne=0)))
        for st, v in out:
            ctx.count("paths of writing")
            w, fl_ = events(st, 'write'), events(st, 'vflush', 'flush'); t = eng.truth(st, v)
            if not have:
                if w or t is not True: V(f, 'none', "writing without a writer doesn't just succeed", st)
                continue
            if [e[1] for e in w] != [(W, q[1], q[2])]: V(f, 'write', "the packet isn't handed to the writer as it is, once", st); continue
            bad = events(st, 'failed')
            if ('failed', 'write') in st.mon:
                if fl_: V(f, 'flush', "flushed though writing failed", st)
            elif len(fl_) != 1: V(f, 'flush', "what was written isn't flushed once", st)
            if t is not (not bad): V(f, 'result', "whether it succeeded isn't what is returned", st)
            if bad and ('passed-error', q[3]) not in st.mon: V(f, 'why', "the caller isn't told why it failed", st)
    f = vfunc(p, AG, 'flush'); q = P(f)
    for have in (True, False):
        _, _, eng, out = go(f, lambda e, s: (s.env.__setitem__(loc['writer'](q[0]), W if have else I0), e.constrain(s, W, ne=0)))
        for st, v in out:
            ctx.count("paths of writing")
            t = eng.truth(st, v); fl_ = events(st, 'flush')
            if [e[1] for e in fl_] != ([(W,)] if have else []): V(f, 'flush', "the writer isn't flushed once", st)
            if t is not (not events(st, 'failed')): V(f, 'result', "whether it succeeded isn't what is returned", st)
            if events(st, 'failed') and ('passed-error', q[1]) not in st.mon: V(f, 'why', "the caller isn't told why it failed", st)
    f = p.need('milter_agent_flush', AG); q = P(f)
    for st, v in go(f)[3]:
        if [e[1] for e in events(st, 'vflush')] != [q[0]]: V(f, 'flush', "the agent's own way to flush isn't used once", st)
    # ---- starting and ending
    R = ('sym', 'present', '#reader', 0)
    f = p.need('milter_agent_start', AG); q = P(f); LOOP = ('sym', 'present', '#loop', 0)
    for hl in (True, False):
        for hr in (True, False):
            for hw in (True, False):
                _, _, eng, out = go(f, lambda e, s: (s.env.update({loc['event_loop'](q[0]): LOOP if hl else I0, loc['reader'](q[0]): R if hr else I0, loc['writer'](q[0]): W if hw else I0}), [e.constrain(s, x, ne=0) for x in (LOOP, R, W)]))
                for st, v in out:
                    ctx.count("paths of starting")
                    sa = [e[1:] for e in events(st, 'start')]; t = eng.truth(st, v)
                    if not hl:
                        if sa or t is not False or ('set-error', q[1]) not in st.mon: V(f, 'loop', "starting without an event loop doesn't fail with an error", st)
                        continue
                    want = [('reader', R, LOOP)] * hr + [('writer', W, LOOP)] * hw
                    if sorted(map(repr, sa)) != sorted(map(repr, want)): V(f, 'start', "the reader and the writer there aren't each started once in the agent's loop", st)
                    if t is not True or events(st, 'set-error'): V(f, 'result', "starting doesn't succeed", st)
                    if len(events(st, 'timer_start', 'timer_new')) != 1: V(f, 'timer', "the time isn't measured from the start", st)
    f = p.need('milter_agent_shutdown', AG); q = P(f)
    # the flag which keeps it from being entered again
    _, _, eng, out = go(f, lambda e, s: s.env.update({loc['reader'](q[0]): R, loc['writer'](q[0]): W}) or [e.constrain(s, x, ne=0) for x in (R, W)])
    flags = {t[1] for st, v in out if not events(st, 'down', 'finished') for t in st.facts if t[0] == 'ld' and t[1][0] == 'f' and eng.truth(st, t) is True}
    if len(flags) != 1: V(f, 'again', "shutting down isn't guarded against being entered again")
    else:
        flag = flags.pop()
        for hr in (True, False):
            for hw in (True, False):
                for done in (0, 1):
                    r = Ag(p, AG); r.flags = lambda e, s: eval_truth(e, s, flag)
                    r.outer = [(loc['reader'](q[0]), I0), (loc['finished'](q[0]), I1)]
                    _, _, eng, out = go(f, lambda e, s: (s.env.update({flag: I0, loc['finished'](q[0]): I(done), loc['reader'](q[0]): R if hr else I0, loc['writer'](q[0]): W if hw else I0}), [e.constrain(s, x, ne=0) for x in (R, W)]), r)
                    for st, v in out:
                        ctx.count("paths of ending")
                        dn = sorted((e[1], e[2]) for e in events(st, 'down'))
                        if dn != [('reader', R)] * hr + [('writer', W)] * hw: V(f, 'down', "the reader and the writer there aren't each shut down once", st)
                        fe = events(st, 'finished')
                        if len(fe) != (not hr and not done) or any(e[1] != q[0] for e in fe): V(f, 'finishes', "an agent without reader doesn't finish once, or one with a reader or which finished already finishes here", st)
                        if any(e[-1] is not True for e in events(st, 'down', 'finished')): V(f, 'guard', "may be entered again while it calls others", st)
                        if eng.truth(st, eng.read(st, flag)) is not False: V(f, 'stuck', "can't be shut down again later", st)
                        if hr and any(e[0] == 'finished' for e in st.mon): V(f, 'twice', "finishes besides its reader's finishing", st)
    f = fin; q = P(f)
    for hr in (True, False):
        for hw in (True, False):
            r = Ag(p, AG); r.flags = lambda e, s: eval_truth(e, s, loc['finished'](q[0]))
            _, _, eng, out = go(f, lambda e, s: (s.env.update({loc['reader'](q[0]): R if hr else I0, loc['writer'](q[0]): W if hw else I0}), [e.constrain(s, x, ne=0) for x in (R, W)]), r)
            for st, v in out:
                ctx.count("paths of ending")
                if sorted((e[1], e[2]) for e in events(st, 'down')) != [('reader', R)] * hr + [('writer', W)] * hw: V(f, 'down', "the reader and the writer there aren't each shut down once", st)
                if any(e[-1] is not True for e in events(st, 'down')): V(f, 'order', "the agent isn't marked as finished before its streams are shut down", st)
                if eng.canon(st, eng.read(st, loc['finished'](q[0]))) != I1: V(f, 'flag', "the agent isn't marked as finished", st)
                t = [x for x in st.facts if x[0] == 'ld' and x[1][0] == 'f' and x[1][2] == 'timer' and eng.truth(st, x) is True]
                if t and not events(st, 'timer_stop'): V(f, 'timer', "the time goes on", st)
    # ---- the loop and the tag
    f = p.need('milter_agent_set_event_loop', AG); q = P(f); OLD = ('sym', 'old', '#loop', 0)
    for old in (True, False):
        for new in (True, False):
            _, _, eng, out = go(f, lambda e, s: (s.env.__setitem__(loc['event_loop'](q[0]), OLD if old else I0), e.constrain(s, OLD, ne=0), e.constrain(s, q[1], **({'ne': 0} if new else {'eq': 0}))))
            for st, v in out:
                ctx.count("changes of the loop")
                cur = eng.read(st, loc['event_loop'](q[0]))
                rf, un = [e[1] for e in events(st, 'ref')], [e[1] for e in events(st, 'unref')]
                if not rf and not un and (same(eng, st, cur, q[1])): continue        # the same one
                if eng.canon(st, cur) != eng.canon(st, q[1]) or rf != [q[1]] * new or un != [OLD] * old: V(f, 'loop', "the loop isn't replaced", st)
    f = p.need('milter_agent_set_tag', AG); q = P(f)
    for hr in (True, False):
        for hw in (True, False):
            _, _, eng, out = go(f, lambda e, s: (s.env.update({loc['reader'](q[0]): R if hr else I0, loc['writer'](q[0]): W if hw else I0}), [e.constrain(s, x, ne=0) for x in (R, W)]))
            for st, v in out:
                tg = [e[1] for e in events(st, 'tag') if e[2] == q[1]]
                if eng.canon(st, eng.read(st, loc['tag'](q[0]))) != q[1] or sorted(map(repr, (x for x in tg if x in (R, W)))) != sorted(map(repr, [R] * hr + [W] * hw)): V(f, 'tag', "the tag isn't the agent's and its streams'", st)
    ctx.floor("changes of streams", 8); ctx.floor("handlers' paths", 7); ctx.floor("paths of writing", 5); ctx.floor("paths of starting", 8); ctx.floor("paths of ending", 12)

def same(e, s, a, b): return e.canon(s, a) == e.canon(s, b) or e.truth(s, e.mkop(s, '==', a, b)) is True
def eval_truth(e, s, l): return e.truth(s, e.read(s, l))
