"""C36: each status is answered to the MTA with its own packet, once, in the order the protocol wants."""
from ctxlib import *
import c16
P, S = "MILTER_CLIENT_CONTEXT_STATE_", "MILTER_STATUS_"
RESP = {'negotiate': 'NEGOTIATE', 'connect': 'CONNECT', 'helo': 'HELO', 'envelope-from': 'ENVELOPE_FROM', 'envelope-recipient': 'ENVELOPE_RECIPIENT',
        'unknown': 'UNKNOWN', 'data': 'DATA', 'header': 'HEADER', 'end-of-header': 'END_OF_HEADER', 'body': 'BODY',
        'end-of-message': 'END_OF_MESSAGE', 'abort': 'ABORT'}
PACKET = {'CONTINUE': 'continue', 'REJECT': 'reject', 'DISCARD': 'discard', 'ACCEPT': 'accept', 'TEMPORARY_FAILURE': 'temporary_failure', 'SKIP': 'skip'}
NN = CtxRule.nn + ('reply-text', 'dup')

class R(CtxRule):
    nn = NN
    def on_store(self, eng, st, fr, loc, val, node):
        if loc[0] == 'f' and loc[1][0] == 'd' and loc[1][1][0] == 'priv':
            if loc[2] == self.statef: self.ev(st, 'state', val)
        if val[0] == 'sym' and val[1] == 'timer' and loc[0] == 'f': self.ev(st, 'timer-kept')
    def on_call(self, eng, st, fr, name, args, node):
        if name == 'milter_utils_format_reply_code':
            v = ('call', 'reply-text') + tuple(eng.canon(st, a) for a in args)
            s = st.copy(); self.ev(s, 'no-text')
            return [(st, v), (s, I0)]
        if name.startswith('milter_message_result_') or name == 'milter_option_inspect': return [(st, I0)]
        if name == 'milter_client_context_get_message_result': return None
        return CtxRule.on_call(self, eng, st, fr, name, args, node)

def run(ctx):
    p = ctx.prog
    E = p.enum
    ctx.explanation = ("The default handler of every response signal of the client context is abstractly interpreted for every status: the "
        "recorded status and state, the packets written (with the text set for a reply), their order with the buffered modifications and "
        "the waiting timer on every path are compared with the protocol's table. The timer's own handler is analysed in the same way.")
    statef, stateloc = getter_loc(p, 'milter_client_context_get_state', CC)
    _, statusloc = getter_loc(p, 'milter_client_context_get_status', CC)
    _, lastloc = getter_loc(p, 'milter_client_context_get_last_state', CC)
    _, optloc = getter_loc(p, 'milter_client_context_get_option', CC)
    _, quarloc = getter_loc(p, 'milter_client_context_get_quarantine_reason', CC)
    _, tmoloc = getter_loc(p, 'milter_client_context_get_timeout', CC)
    text = reply_fields(ctx, p)
    tf = c16.timer_field(p)
    statuses = [(v, n[len(S):]) for v, n in enum_values(p, S)]
    name = {v: n for v, n in statuses}
    if len(statuses) < 14: raise AnalysisBroken("the statuses aren't found")
    handlers = set()
    for sig, sname in RESP.items():
        h = vfunc(p, CC, sig.replace('-', '_') + '_response')
        if h is None: raise AnalysisBroken("no default handler for %s-response" % sig)
        cx = ('sym', 'param', h.params[0]['n'], 0)
        prm = [('sym', 'param', q['n'], n) for n, q in enumerate(h.params)]
        ctx.count("response handlers")
        for sv, st_name in statuses:
            befores = [(None, None)]
            if sig == 'abort': befores = [(b, l) for b in (S + 'DEFAULT', S + 'NOT_CHANGE', S + 'CONTINUE', S + 'REJECT', S + 'TEMPORARY_FAILURE', S + 'ACCEPT')
                                          for l in (P + 'INVALID', P + 'START', P + 'NEGOTIATE', P + 'HELO', P + 'ENVELOPE_RECIPIENT', P + 'BODY', P + 'END_OF_MESSAGE')]
            for before, last in befores:
                rule = R(p, CC); rule.statef = statef
                eng = Engine(p, rule)
                def setup(eng, st):
                    eng.constrain(st, cx, ne=0)
                    if before is not None: st.env[statusloc(cx)] = I(E(before)); st.env[lastloc(cx)] = I(E(last))
                rs = eng.run(h, {h.params[-1]['n']: I(sv)}, setup)
                ctx.used(eng); ctx.count("handler runs")
                for st, v in rs:
                    ctx.count("paths")
                    V = lambda key, msg: ctx.violation("%s:%s:%s" % (sig, key, st_name), CC, h.line, "%s-response with %s: %s (path %s)" % (sig, st_name, msg, trace_str(st.trace)))
                    eff = sv
                    if st_name == 'DEFAULT': eff = E(S + {'negotiate': 'ALL_OPTIONS', 'abort': 'ABORT'}.get(sig, 'CONTINUE'))
                    if sig == 'abort' and st_name == 'NOT_CHANGE': eff = E(S + 'ABORT')
                    rec = st.env.get(statusloc(cx))
                    want = eff
                    if sig == 'abort' and not (before in (S + 'DEFAULT', S + 'NOT_CHANGE', S + 'CONTINUE') and E(P + 'NEGOTIATE') <= E(last) < E(P + 'END_OF_MESSAGE')): want = E(before)
                    if rec != I(want): V("status", "the status recorded is %s" % (name.get(rec[1]) if rec and rec[0] == 'i' else rec,))
                    if [e[1] for e in events(st, 'state')][-1:] != [I(E(P + sname + "_REPLIED"))]: V("state", "the context isn't left in the replied state")
                    writes = [(n, e) for n, e in enumerate(st.mon) if e[0] == 'write']
                    failed = [e[1] for e in events(st, 'failed')]
                    if 'write' in failed and not any(e[:2] == ('emit', 'error') for e in st.mon[index(st, lambda e: e == ('failed', 'write')):]):
                        V("error", "a failed write isn't reported")
                    if any(e[0] == 'write' and not e[2] for n, e in writes): V("size", "the size written isn't the packet's")
                    for n, e in writes:
                        arms = [e for e in st.mon[:n] if e[0] == 'arm'] + [e for e in st.mon[n:] if e[0] == 'arm']
                        removed = [m for m, e in enumerate(st.mon) if e[0] == 'remove']
                        first = index(st, lambda e: e[0] == 'arm')
                        idle = any(f[0] == 'ld' and f[1][0] == 'f' and f[1][2] == tf and c[:2] == (0, 0) for f, c in st.facts.items())
                        if len(arms) != 1 or not events(st, 'timer-kept'): V("timer", "the MTA's next command isn't awaited with one timer"); break
                        handlers.add(arms[0][1])
                        if arms[0][2] != ('ld', tmoloc(cx)) or arms[0][3] != cx: V("timer-arguments", "the timer isn't set with the context's timeout")
                        if not (removed and removed[0] < first) and not idle: V("timer-kept", "the previous timer isn't stopped")
                    if not writes and events(st, 'arm'): V("timer-unsent", "a timer is set although nothing is sent")
                    # packets
                    got = [x for n, e in writes for x in e[1]]
                    if sig == 'abort': wants = [[]]
                    elif sig == 'negotiate':
                        n = name[eff]
                        if n in ('CONTINUE', 'ALL_OPTIONS'):
                            kept = eng.canon(st, st.env.get(optloc(cx), ('ld', optloc(cx))))
                            if n == 'CONTINUE' and kept != eng.canon(st, prm[1]): V("option", "the negotiated options aren't kept")
                            wants = [[('call', 'packet', 'negotiate', kept, prm[2])]]
                        else: wants = [[('call', 'packet', 'reject')]] if n == 'REJECT' else [[]]
                    else:
                        pk = PACKET.get(name[eff])
                        wants = [[]]
                        if pk:
                            plain = ('call', 'packet', pk)
                            wants = [[plain]]
                            if pk in ('reject', 'temporary_failure'):
                                if not events(st, 'no-text'): wants = [[('call', 'packet', 'reply_code', ('call', 'reply-text') + tuple(('ld', t(cx)) for t in text))]]
                        if sig == 'end-of-message':
                            fl = index(st, lambda e: e[0] == 'flush')
                            if fl is None or writes and writes[0][0] < fl: V("flush", "the buffered modifications aren't sent before the reply")
                            if 'flush' in failed:
                                wants = [[]]
                                if not any(e[:2] == ('emit', 'error') for e in st.mon): V("error", "a failed flush isn't reported")
                            q = st.env.get(quarloc(cx), ('ld', quarloc(cx)))
                            t = eng.truth(st, q)
                            quarantine = ('call', 'packet', 'quarantine', q)
                            if pk and 'flush' not in failed:
                                if t is True: wants = [[quarantine] + w for w in wants]
                                elif t is None: wants = []; V("quarantine", "whether the message is quarantined isn't considered")
                    if got not in wants: V("packet", "sent %s instead of %s" % ([show(x) for x in got] or "nothing", " or ".join(str([show(x) for x in w] or "nothing") for w in wants)))
                    if sig == 'end-of-message' and t is True and len(writes) > 1: V("quarantine-split", "the quarantine and the reply are written separately")
                    if sig not in ('negotiate', 'abort'):
                        # what was set for this reply is not used again
                        for l in text:
                            now = st.env.get(l(cx), ('ld', l(cx)))
                            if 'flush' in failed: continue
                            if now != I0 and eng.truth(st, now) is not False: V("stale", "the reply text set for this command stays set for later commands"); break
                    em = [e[1] for e in st.mon if e[0] == 'emit' and e[1] != 'error']
                    if sig == 'end-of-message':
                        me = index(st, lambda e: e[:2] == ('emit', 'message-processed'))
                        if me is not None and (writes and me < writes[-1][0] or me < (index(st, lambda e: e[0] == 'flush') or 0)): V("processed", "the message is reported as processed before the reply is written")
                        if set(em) - {'message-processed'} or em.count('message-processed') > 1: V("signal", "emits %s" % em)
                    elif em: V("signal", "emits %s" % em)
    for hn in handlers:
        f = p.resolve(hn, CC)
        if f is None: ctx.violation("timer:" + hn, CC, 1, "the timer's handler is not found"); continue
        rule = R(p, CC); rule.statef = statef
        eng = Engine(p, rule)
        rs = eng.run(f, {}, lambda eng, st: eng.constrain(st, ('sym', 'param', f.params[0]['n'], 0), ne=0))
        ctx.used(eng)
        for st, v in rs:
            ctx.count("paths")
            seq = [e[1] if e[0] == 'emit' else e[0] for e in st.mon if e[0] in ('emit', 'shutdown')]
            if seq != ['timeout', 'shutdown']: ctx.violation("timer:" + hn, CC, f.line, "when the MTA is silent for too long, %s instead of timeout and shutdown (path %s)" % (seq, trace_str(st.trace)))
            if v != I0: ctx.violation("timer-repeat:" + hn, CC, f.line, "the timer stays installed after it fired (path %s)" % trace_str(st.trace))
    ctx.floor("response handlers", 12); ctx.floor("paths", 400)
    ctx.assume("handlers of the error and message-processed signals don't answer the command themselves")

def show(v):
    if v[:2] == ('call', 'packet'): return v[2]
    return str(v)[:80]

def reply_fields(ctx, p):
    """fields of the reply's code, extended code and text, from the public formatter; checks the setter against them"""
    f = p.need('milter_client_context_format_reply', CC)
    eng = Engine(p, R(p, CC)); 
    eng.rule.statef = None
    me = ('sym', 'param', f.params[0]['n'], 0)
    rs = eng.run(f, {}, lambda eng, st: eng.constrain(st, me, ne=0))
    vs = {v for st, v in rs if v[:2] == ('call', 'reply-text')}
    if len(vs) != 1 or not all(x[0] == 'ld' for x in list(vs)[0][2:]):
        ctx.violation("format", CC, f.line, "the reply's text isn't made from the code, extended code and message that were set"); return []
    locs = [x[1] for x in vs.pop()[2:]]
    out = [lambda obj, l=l: subst_any(l, me, obj) for l in locs]
    g = p.need('milter_client_context_set_reply', CC)
    prm = [('sym', 'param', q['n'], n) for n, q in enumerate(g.params)]
    class W(R):
        statef = None
        def inline(self, eng, fn): return R.inline(self, eng, fn) and len(fn.loopheads) == 0
    rule = W(p, CC)
    eng = Engine(p, rule)
    rs = eng.run(g, {}, lambda eng, st: eng.constrain(st, prm[0], ne=0))
    ctx.used(eng)
    for st, v in rs:
        ctx.count("paths")
        now = [st.env.get(l(prm[0]), ('ld', l(prm[0]))) for l in out]
        t = eng.truth(st, v)
        lo, hi = eng.cons(st, prm[1])[:2]
        if t is not False:
            dup = [I0 if eng.truth(st, prm[n]) is False else ('call', 'dup', prm[n]) for n in (2, 3)]
            if now[0] != prm[1] or any(now[n + 1] not in (dup[n], ('call', 'dup', prm[n + 2])) and not (dup[n] == I0 and eng.truth(st, now[n + 1]) is False) for n in (0, 1)):
                ctx.violation("set-reply", CC, g.line, "set_reply succeeds without keeping the code, extended code and message (path %s)" % trace_str(st.trace))
            if not (lo >= 400 and hi <= 599): ctx.violation("set-reply-range", CC, g.line, "set_reply accepts codes %s-%s (path %s)" % (lo, hi, trace_str(st.trace)))
        else:
            if now != [('ld', l(prm[0])) for l in out]: ctx.violation("set-reply-partial", CC, g.line, "a refused set_reply changes the reply (path %s)" % trace_str(st.trace))
    return out
