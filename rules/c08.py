from childrenlib import *

FAILURES = ["writing-timeout", "reading-timeout", "end-of-message-timeout", "error", "finished"]
FALLBACKS = ["MILTER_STATUS_ACCEPT", "MILTER_STATUS_TEMPORARY_FAILURE", "MILTER_STATUS_REJECT", "MILTER_STATUS_DISCARD"]
BLOCKING = set(FALLBACKS[1:])
MORE, MORE_CHILD = ('sym', 'more', 'children', 0), ('sym', 'more', 'child', 0)
FIRST = ('sym', 'first', 'children', 0)

class FailRule(ChildRule):
    more = False
    ctx_param = None
    def on_call(self, eng, st, fr, name, args, node):
        if name in ('g_list_remove', 'g_list_delete_link', 'g_list_remove_link') and args[0] == FIRST:
            self.event(st, ('unwait',))
            return [(st, MORE if self.more else I0)]
        if name in ('g_list_first',) and args[0] in (FIRST, MORE): return [(st, args[0])]
        if name == 'g_queue_remove':
            self.event(st, ('dequeue', args[1]))
            return [(st, I1)]
        if name == 'g_signal_handlers_disconnect_matched':
            self.event(st, ('disconnect', args[5][1] if args[5][0] == 'fn' else '?'))
            return [(st, I1)]
        if name == 'milter_server_context_set_quitted':
            self.event(st, ('quitted', args[0], args[1]))
            return [(st, I0)]
        if name == 'milter_server_context_is_quitted': return [(st, I0)]
        if name == 'milter_event_loop_add_timeout':
            self.event(st, ('retry',))
            return None
        return ChildRule.on_call(self, eng, st, fr, name, args, node)

def run(ctx):
    p = ctx.prog
    S = lambda n: p.enum(n)
    ctx.explanation = ("Every handler that is told that a child failed (writing, reading and end-of-message timeout, error, closed "
        "connection while an answer was due) is abstractly interpreted for every protocol state, fallback status and recorded status; "
        "the recorded status, the release of the child and the reply or next command on every path are compared with the specification.")
    rank = {S(n): i for i, n in enumerate(RANKED)}
    conn = connections(p, CH)
    reply_handlers = {h[0] for sig, hs in conn.items() for h in hs
                      if sig in set(SIGNAL.values()) | {"reply-code", "negotiate-reply"} | set(FAILURES)
                      and h[0] not in ("cb_connection_error",)}
    finals = set(SIGNAL.values()) | {"reply-code"}
    for sig in FAILURES:
        cands = [p.resolve(x[0], CH) for x in conn.get(sig, [])]
        # the handler registered for a running session (its data is the coordinator itself)
        hs = [f for f in cands if f is not None and f.params and not (uses_record(f, 'NegotiateData') or any(uses_record(g, 'NegotiateData') for g in p.callees(f) if g.static and g.file == CH and len(f.blocks) <= 4))]
        if not hs: raise AnalysisBroken("no handler for '%s'" % sig)
        h = hs[0]
        ctx.count("failure handlers")
        for sname in SIMPLE_STATES + MSG_STATES:
            s = S(SP + sname)
            for fb in FALLBACKS:
                for stored in (None, "MILTER_STATUS_ACCEPT", "MILTER_STATUS_CONTINUE", "MILTER_STATUS_REJECT"):
                    for last in (1, 0):
                        one(ctx, p, S, rank, sig, h, s, sname, fb, stored, last, reply_handlers, finals)
                    # a child may still be catching up while the MTA is already at the end of the message
                    if sname in MSG_STATES[:-1] and sig != "finished":
                        one(ctx, p, S, rank, sig, h, s, sname, fb, stored, 0, reply_handlers, finals, S(SP + "END_OF_MESSAGE"))
    ctx.floor("failure handlers", 5)
    negotiate(ctx, p, S, conn)
    connect_failures(ctx, p, S, conn)
    ctx.floor("replies checked", 100)
    ctx.assume("a failing child is the one whose answer is awaited; the fallback status is one of accept, temporary-failure, reject, discard")
    ctx.assume("log statements have no effect on replies")

def uses_record(f, rec):
    for b in f.blocks.values():
        for e in b['e']:
            stack = [e]
            while stack:
                x = stack.pop()
                if isinstance(x, dict):
                    if x.get('k') == 'mem' and rec in str(x.get('rec', '')) + str(x.get('b', {}).get('t', '') if isinstance(x.get('b'), dict) else ''): return True
                    stack.extend(x.values())
                elif isinstance(x, list): stack.extend(x)
    return False

def one(ctx, p, S, rank, sig, h, s, sname, fb, stored, last, reply_handlers, finals, pstate=None):
    fbv = S(fb); sv = None if stored is None else S(stored)
    rule = FailRule(p, s, fallback=fbv, evaluation=None, table=sv,
                    consts={'g_queue_is_empty': last, 'milter_server_context_is_processing': 1,
                            'milter_server_context_is_processing_message': 1,
                            'milter_server_context_need_reply': 1},
                    stop=('dispose_message_related_data', 'emit_signals_on_end_of_message', 'send_command_to_child', 'report_result'))
    rule.more = not last
    eng = Engine(p, rule)
    fields = {'processing_state': I(s), 'state': I(s if pstate is None else pstate), 'pending_message_request': I0, 'reply_code': I0,
              'emitted_reply_for_message_oriented_command': I0, 'command_waiting_child_queue': FIRST}
    ctxp = ('sym', 'param', h.params[0]['n'], 0)
    def setup(eng, st, f=setup_priv(fields, h)):
        f(eng, st)
        for v in (FIRST, MORE, MORE_CHILD, ctxp): st.facts[v] = (-INF, INF, frozenset([0]))
        st.env[('f', ('d', FIRST), 'data')] = ctxp
        st.env[('f', ('d', MORE), 'data')] = MORE_CHILD
    rs = eng.run(h, {}, setup)
    ctx.used(eng); ctx.count("handler runs")
    exp = fbv if sv is None or rank[fbv] > rank[sv] else sv
    for st, v in rs:
        evs = st.mon[1]
        w = "'%s' of a child in %s with fallback %s, %s recorded, %s (path %s): " % (
            sig, sname, fb, stored, "no other child pending" if last else "another child pending", trace_str(st.trace))
        key = "%s:%s:%s" % (sig, sname, fb)
        if st.mon[0] != exp:
            ctx.violation("fold:" + key, h.file, h.line, w + "the recorded status becomes %s instead of %s" % (st.mon[0], exp))
        for e in evs:
            if e[0] == 'record' and e[1] != I(s):
                ctx.violation("key:" + key, h.file, h.line, w + "the fallback is recorded under another step %s" % (e[1],))
        if not any(e[0] == 'quitted' and e[1] == ctxp and e[2] == I1 for e in evs):
            ctx.violation("expire:" + key, h.file, h.line, w + "the child is not marked as gone")
        gone = {e[1] for e in evs if e[0] == 'disconnect'}
        for m in sorted(reply_handlers - gone):
            ctx.violation("connected:%s:%s" % (sig, m), h.file, h.line, w + "the handler %s stays connected to the failed child" % m)
        emits = [e[1] for e in evs if e[0] == 'emit' and e[1] in finals]
        sent = any(e[0] == 'call' and e[1] == 'send_command_to_child' or e[0] == 'child' and e[1] in
                   ('milter_server_context_header', 'milter_server_context_end_of_header', 'milter_server_context_body',
                    'milter_server_context_end_of_message') for e in evs)
        want = SIGNAL[[n for n in RANKED if S(n) == exp][0]]
        if sname in SIMPLE_STATES:
            if not any(e[0] == 'dequeue' and e[1] == ctxp for e in evs):
                ctx.violation("dequeue:" + key, h.file, h.line, w + "the child stays in the queue of awaited answers")
            if last and emits != [want]:
                ctx.violation("reply:" + key, h.file, h.line, w + "upstream gets %s instead of '%s'" % (emits, want))
            if not last and emits:
                ctx.violation("early:" + key, h.file, h.line, w + "%s is sent upstream before the other answers" % emits)
        else:
            blocking = fb in BLOCKING
            if blocking:
                if want in ('reject', 'temporary-failure', 'discard') and emits != [want]:
                    ctx.violation("reply:" + key, h.file, h.line, w + "upstream gets %s instead of '%s'" % (emits, want))
                if not sent and not emits:
                    ctx.violation("stall:" + key, h.file, h.line, w + "neither a reply nor a next command follows")
            elif last:
                if emits != [want]:
                    ctx.violation("reply:" + key, h.file, h.line, w + "upstream gets %s instead of '%s'" % (emits, want))
            else:
                bad = [e for e in emits if e != 'continue']
                if bad:
                    ctx.violation("early:" + key, h.file, h.line, w + "%s is sent upstream although another child has not seen the message" % bad)
                if not sent and not emits:
                    ctx.violation("stall:" + key, h.file, h.line, w + "the next child is not asked")
        ctx.count("replies checked", len(emits))

C1, C2, N1, N2 = (('sym', 'list', n, 0) for n in ('child1', 'child2', 'node1', 'node2'))

class NegRule(FailRule):
    negotiated = {}
    fbs = {}
    def on_call(self, eng, st, fr, name, args, node):
        if name == 'milter_server_context_is_negotiated' and args[0] in self.negotiated: return [(st, I(self.negotiated[args[0]]))]
        if name == 'milter_manager_child_get_fallback_status' and args[0] in self.fbs: return [(st, I(self.fbs[args[0]]))]
        return FailRule.on_call(self, eng, st, fr, name, args, node)
    def on_store(self, eng, st, fr, loc, val, node):
        if loc[0] == 'f' and loc[2] == 'all_expired_as_fallback_on_negotiated': self.event(st, ('flag', val))

def negotiate(ctx, p, S, conn):
    """the last outstanding negotiation: a child which could not be negotiated applies its fallback to the whole session"""
    h = handler(p, CH, 'negotiate-reply')
    for fb in FALLBACKS:
        for which in (C1, C2):
            other = C2 if which == C1 else C1
            rule = NegRule(p, S(SP + "NEGOTIATE"), consts={'g_queue_is_empty': 1}, stop=('report_result',))
            rule.negotiated = {which: 0, other: 1}
            rule.fbs = {which: S(fb), other: S("MILTER_STATUS_ACCEPT")}
            eng = Engine(p, rule)
            def setup(eng, st, f=setup_priv({'milters': N1, 'finished': I0, 'all_expired_as_fallback_on_negotiated': I0,
                                             'option': ('sym', 'opt', 'opt', 0)}, h)):
                f(eng, st)
                for v in (C1, C2, N1, N2, ('sym', 'opt', 'opt', 0)): st.facts[v] = (-INF, INF, frozenset([0]))
                st.env[('f', ('d', N1), 'data')] = C1; st.env[('f', ('d', N1), 'next')] = N2
                st.env[('f', ('d', N2), 'data')] = C2; st.env[('f', ('d', N2), 'next')] = I0
            rs = eng.run(h, {}, setup)
            ctx.used(eng); ctx.count("negotiation runs")
            for st, v in rs:
                evs = st.mon[1]
                w = "a child which failed to negotiate has fallback %s (path %s): " % (fb, trace_str(st.trace))
                if not any(e[0] == 'emit' and e[1] == 'negotiate-reply' for e in evs):
                    ctx.violation("negotiate-reply:%s" % fb, h.file, h.line, w + "no negotiation reply is sent upstream")
                flag = any(e[0] == 'flag' and e[1] == I1 for e in evs)
                exp = any(e[0] == 'quitted' and e[1] == other and e[2] == I1 for e in evs)
                if (fb in BLOCKING) != (flag and exp):
                    ctx.violation("negotiate-fallback:%s" % fb, h.file, h.line, w + "the other children are %s" %
                                  ("not taken out of the session" if fb in BLOCKING else "taken out of the session"))
    ctx.floor("negotiation runs", 8)

def connect_failures(ctx, p, S, conn):
    """a child which cannot be connected is retried or released, never left pending"""
    for sig in ("connection-timeout", "error"):
        hs = [p.resolve(x[0], CH) for x in conn.get(sig, [])]
        hs = [f for f in hs if f is not None and (sig != "error" or (uses_record(f, 'NegotiateData') or any(uses_record(g, 'NegotiateData') for g in p.callees(f) if g.static and g.file == CH and len(f.blocks) <= 4)))]
        if not hs: raise AnalysisBroken("no connection failure handler for '%s'" % sig)
        h = hs[0]
        rule = FailRule(p, S(SP + "NEGOTIATE"), consts={'g_queue_is_empty': None}, stop=('report_result', 'reply_negotiate', 'milter_manager_children_start_child'))
        eng = Engine(p, rule)
        rs = eng.run(h)
        ctx.used(eng); ctx.count("connection failure handlers")
        n = 0
        for st, v in rs:
            evs = st.mon[1]
            n += 1
            retry = any(e[0] == 'retry' for e in evs)
            out = any(e[0] == 'dequeue' for e in evs); gone = any(e[0] == 'quitted' and e[2] == I1 for e in evs)
            w = "'%s' while connecting (path %s): " % (sig, trace_str(st.trace))
            if not retry and not (out and gone):
                ctx.violation("pending:%s" % sig, h.file, h.line, w + "the child is neither retried nor released")
            if retry and (out or gone):
                ctx.violation("released-and-retried:%s" % sig, h.file, h.line, w + "the child is released and retried")
        if sig == "error" and n < 2: raise AnalysisBroken("connection error handler has a single path")
    ctx.floor("connection failure handlers", 2)
