from childrenlib import *

MUTATORS = ["add-header", "insert-header", "change-header", "delete-header", "change-from", "add-recipient",
            "delete-recipient", "replace-body", "quarantine"]
VERDICTS = ["temporary-failure", "reject", "discard", "reply-code"]
NEUTRAL_FIELDS = {"processing_header_index", "command_waiting_child_queue", "command_queue", "sending_body", "sent_body_offset"}
HEADER_WRITERS = re.compile(r'^milter_headers_(add|append|insert|change|delete|remove)')

MORE = ('sym', 'more', 'children', 0)
MORE_CHILD = ('sym', 'more', 'child', 0)

class EvalRule(ChildRule):
    def on_call(self, eng, st, fr, name, args, node):
        if HEADER_WRITERS.match(name):
            self.event(st, ('edit', name))
            return [(st, I1)]
        if name in ('g_io_channel_write_chars', 'g_string_append_len', 'g_string_append', 'g_string_insert_len') and \
                args and field_of(args[0]) in ('body', 'body_file'):
            self.event(st, ('edit', name))
        if name in ('g_list_remove', 'g_list_delete_link', 'g_list_remove_link') and field_of(args[0]) is None and args[0] == MORE or \
                name in ('g_list_first', 'g_list_last', 'g_list_next') and args[0] == MORE:
            return [(st, MORE)]          # another child is still waiting behind this one
        if name in ('g_list_length', 'g_list_nth_data') and args[0] == MORE: return [(st, MORE_CHILD)]
        return ChildRule.on_call(self, eng, st, fr, name, args, node)
    def on_store(self, eng, st, fr, loc, val, node):
        if loc[0] == 'f' and loc[1][0] == 'd' and loc[1][1][0] == 'priv' and loc[1][1][2] == 'miltermanagerchildren':
            self.event(st, ('store', loc[2]))

def run(ctx):
    p = ctx.prog
    S = lambda n: p.enum(n)
    ctx.explanation = ("Every handler through which a child in evaluation mode can answer (verdicts and modification requests) is "
        "abstractly interpreted for every protocol state; the effects it has on the reply recorded or sent upstream and on the "
        "message are collected, and none is allowed.")
    acc = S("MILTER_STATUS_ACCEPT")
    for sig in MUTATORS:
        h = handler(p, CH, sig)
        ctx.count("modification handlers")
        seen_edit = False
        for ev in (1, 0):
            rule = EvalRule(p, S(SP + "END_OF_MESSAGE"), evaluation=ev)
            eng = Engine(p, rule)
            rs = eng.run(h)
            ctx.used(eng); ctx.count("handler runs")
            for st, v in rs:
                bad = [e for e in st.mon[1] if e[0] in ('edit', 'store', 'record') or e[0] == 'emit']
                if ev == 0:
                    seen_edit = seen_edit or bool(bad)
                    continue
                for e in bad:
                    ctx.violation("modify:%s:%s" % (sig, e[1]), h.file, h.line,
                        "a '%s' request from a child in evaluation mode has the effect %s (path %s)" % (sig, e[:2], trace_str(st.trace)))
        if not seen_edit:
            raise AnalysisBroken("the '%s' handler has no observable effect outside evaluation mode" % sig)
    reply_sigs = set(SIGNAL.values()) | {"reply-code"} | set(MUTATORS)
    for sig in VERDICTS:
        h = handler(p, CH, sig)
        ctx.count("verdict handlers")
        for sname in SIMPLE_STATES + MSG_STATES:
            s = S(SP + sname)
            for stored in [None, "MILTER_STATUS_CONTINUE", "MILTER_STATUS_ACCEPT", "MILTER_STATUS_REJECT"]:
                sv = None if stored is None else S(stored)
                for empty in (0, 1):
                    rule = EvalRule(p, s, evaluation=1, table=sv, consts={'g_queue_is_empty': empty},
                                    stop=('expire_child', 'dispose_message_related_data', 'emit_signals_on_end_of_message', 'send_command_to_child'))
                    eng = Engine(p, rule)
                    fields = {'processing_state': I(s), 'state': I(s), 'pending_message_request': I0,
                              'reply_code': I0, 'reply_extended_code': I0, 'reply_message': I0,
                              'emitted_reply_for_message_oriented_command': I0,
                              'command_waiting_child_queue': MORE}
                    def setup(eng, st, f=setup_priv(fields, h)):
                        f(eng, st)
                        st.facts[MORE] = st.facts[MORE_CHILD] = (-INF, INF, frozenset([0]))
                        st.env[('f', ('d', MORE), 'data')] = MORE_CHILD
                    rs = eng.run(h, {}, setup)
                    ctx.used(eng); ctx.count("handler runs")
                    for st, v in rs:
                        w = "child in evaluation mode answers '%s' in %s (path %s)" % (sig, sname, trace_str(st.trace))
                        cur = st.mon[0]
                        if cur != sv and not (sv is None and cur == acc) and cur is not None:
                            ctx.violation("verdict:%s:%s" % (sig, sname), h.file, h.line, w + ": the recorded status becomes %s" % cur)
                        for e in st.mon[1]:
                            if e[0] == 'store' and e[1] in ('reply_code', 'reply_extended_code', 'reply_message'):
                                loc = [l for l in st.env if l[0] == 'f' and l[2] == e[1]]
                                val = st.env[loc[0]] if loc else None
                                if val != I0:
                                    ctx.violation("reply-text:%s" % sig, h.file, h.line, w + ": its reply text is kept for the reply sent upstream (%s)" % e[1])
                            if e[0] == 'edit':
                                ctx.violation("edit:%s:%s" % (sig, sname), h.file, h.line, w + ": the message is edited (%s)" % e[1])
                            if e[0] == 'abort-all' and not (sv == S("MILTER_STATUS_REJECT")):
                                ctx.violation("abort:%s:%s" % (sig, sname), h.file, h.line, w + ": the other children are aborted")
                            if e[0] == 'emit' and e[1] in reply_sigs:
                                if sname in MSG_STATES and e[1] == 'continue':
                                    continue    # asks the MTA for the next part of the message
                                if sname in MSG_STATES:
                                    # another child is still waiting for this message: no final reply yet
                                    ctx.violation("emit:%s:%s" % (sig, sname), h.file, h.line,
                                        w + ": '%s' is sent upstream while other children have not answered" % e[1])
                                elif sv is not None and e[1] not in (SIGNAL[stored],):
                                    ctx.violation("emit:%s:%s" % (sig, sname), h.file, h.line, w + ": '%s' is sent upstream although %s was recorded" % (e[1], stored))
                                elif sv is None and e[1] != 'accept':
                                    ctx.violation("emit:%s:%s" % (sig, sname), h.file, h.line, w + ": '%s' is sent upstream" % e[1])
    ctx.floor("modification handlers", 9)
    ctx.floor("verdict handlers", 4)
    ctx.assume("the only channels from a child to the reply are the handlers connected in the child coordinator")
