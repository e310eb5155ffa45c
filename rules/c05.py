from childrenlib import *

class Cmp(Rule):
    def __init__(self, file): self.file = file
    def init_mon(self): return ()
    def inline(self, eng, f): return f.static and f.file == self.file

def run(ctx):
    p = ctx.prog
    S = lambda n: p.enum(n)
    ctx.explanation = ("The status comparison is tabulated by conditional constant propagation over every ordered pair of "
        "reply statuses; every reply handler the coordinator connects to a child is abstractly interpreted for every protocol "
        "state and every previously recorded status, and the recorded status and emitted reply are compared with the fold "
        "by strictness.")
    rank = {S(n): i for i, n in enumerate(RANKED)}
    # (a) strict total order
    f = p.need('milter_status_compare')
    pn = [x['n'] for x in f.params]
    for a in RANKED:
        for b in RANKED:
            if a == b == "MILTER_STATUS_NOT_CHANGE": pass
            eng = Engine(p, Cmp(f.file))
            rs = eng.run(f, {pn[0]: I(S(a)), pn[1]: I(S(b))})
            ctx.used(eng); ctx.count("ordered pairs")
            want = (rank[S(a)] > rank[S(b)]) - (rank[S(a)] < rank[S(b)])
            for st, v in rs:
                got = None if v[0] != 'i' else (v[1] > 0) - (v[1] < 0)
                if got != want:
                    ctx.violation("compare:%s:%s" % (a, b), f.file, f.line,
                                  "comparing %s with %s yields %s, strictness order says %s" % (a, b, v, want))
    ctx.floor("ordered pairs", 49)
    # (b,c,d) handlers
    table = [("continue", "MILTER_STATUS_CONTINUE", {}), ("temporary-failure", "MILTER_STATUS_TEMPORARY_FAILURE", {}),
             ("reject", "MILTER_STATUS_REJECT", {}), ("accept", "MILTER_STATUS_ACCEPT", {}),
             ("discard", "MILTER_STATUS_DISCARD", {}), ("skip", "MILTER_STATUS_SKIP", {}),
             ("reply-code", "MILTER_STATUS_TEMPORARY_FAILURE", {"code": I(451)}),
             ("reply-code", "MILTER_STATUS_REJECT", {"code": I(554)})]
    finals = set(SIGNAL.values())
    for sig, status, extra in table:
        h = handler(p, CH, sig)
        ctx.count("reply handlers")
        args = {}
        if extra:
            args[h.params[1]['n']] = extra['code']
        states = SIMPLE_STATES + MSG_STATES
        if sig == "discard": states = [s for s in states if s not in ("CONNECT", "HELO")]
        if sig == "skip": states = ["BODY"]
        catching_up = [(x, "END_OF_MESSAGE") for x in states if x in MSG_STATES[:-1]] if sig in ("temporary-failure", "reject", "discard", "reply-code") else []
        for sname, pname in [(x, x) for x in states] + catching_up:
            s = S(SP + sname)
            for stored in [None] + RANKED[1:]:
                sv = None if stored is None else S(stored)
                rule = ChildRule(p, s, evaluation=0, table=sv,
                                 consts={'g_queue_is_empty': 1, 'milter_server_context_is_processing': 0},
                                 stop=('expire_child', 'dispose_message_related_data', 'emit_signals_on_end_of_message',
                                       'send_next_command', 'send_next_header_to_child', 'send_body_to_child', 'send_command_to_child'))
                eng = Engine(p, rule)
                fields = {'processing_state': I(s), 'state': I(S(SP + pname)), 'pending_message_request': I0,
                          'emitted_reply_for_message_oriented_command': I0}
                if not extra: fields['reply_code'] = I0
                rs = eng.run(h, args, setup_priv(fields, h))
                ctx.used(eng); ctx.count("handler runs")
                if not rs:
                    ctx.violation("noexit:%s:%s" % (sig, sname), h.file, h.line, "no path through the handler completes")
                own = S(status)
                exp = own if sv is None or rank[own] > rank[sv] else sv
                for st, v in rs:
                    recs = [e for e in st.mon[1] if e[0] == 'record']
                    cur = sv
                    for e in recs:
                        if e[1] != I(s):
                            ctx.violation("key:%s:%s" % (sig, sname), h.file, h.line,
                                          "a '%s' answer for %s is recorded under another step (%s)" % (sig, sname, e[1]))
                        else: cur = e[2][1] if e[2][0] == 'i' else e[2]
                    if cur != exp:
                        ctx.violation("fold:%s:%s:%s" % (sig, sname, stored or "none"), h.file, h.line,
                            "child answers '%s' in %s while %s is recorded: the recorded status becomes %s instead of %s (path %s)"
                            % (sig, sname, stored, cur, exp, trace_str(st.trace)))
                    # emitted replies
                    for e in st.mon[1]:
                        if e[0] != 'emit': continue
                        name = e[1]
                        if name == 'reply-code':
                            code = e[3]
                            want = S("MILTER_STATUS_TEMPORARY_FAILURE") if code == I(451) else S("MILTER_STATUS_REJECT") if code == I(554) else None
                            if want != exp:
                                ctx.violation("emit-code:%s:%s" % (sig, sname), h.file, h.line,
                                    "reply code %s emitted while the strictest status is %s" % (code, exp))
                            continue
                        if name not in finals: continue
                        wantname = SIGNAL[[n for n in RANKED if S(n) == exp][0]]
                        strict = sname in SIMPLE_STATES or sig in ("temporary-failure", "reject", "discard", "reply-code")
                        if not strict: continue
                        if name != wantname:
                            ctx.violation("emit:%s:%s:%s" % (sig, sname, stored or "none"), h.file, h.line,
                                "the reply sent upstream is '%s' although the strictest recorded status is '%s' (path %s)"
                                % (name, wantname, trace_str(st.trace)))
                        ctx.count("emitted replies checked")
                    if sname in ("ENVELOPE_FROM", "ENVELOPE_RECIPIENT", "DATA") or (sname in MSG_STATES and sig in ("temporary-failure", "reject", "discard")):
                        if not any(e[0] == 'emit' and (e[1] in finals or e[1] == 'reply-code') for e in st.mon[1]):
                            ctx.violation("noemit:%s:%s" % (sig, sname), h.file, h.line,
                                "the last child answered '%s' in %s and no reply is sent upstream (path %s)" % (sig, sname, trace_str(st.trace)))
    ctx.floor("reply handlers", 8)
    ctx.floor("emitted replies checked", 200)
    ctx.assume("log statements have no effect on replies; a handler runs to completion before the next one (single event loop)")
