"""C18: each reply of a milter has exactly its own effect in the manager, in the states where the protocol allows it."""
from sclib import *
ANY = None
CMDS = ['CONNECT', 'HELO', 'ENVELOPE_FROM', 'ENVELOPE_RECIPIENT', 'UNKNOWN', 'DATA', 'HEADER', 'END_OF_HEADER', 'BODY', 'END_OF_MESSAGE']
EOM = ['END_OF_MESSAGE']
# reply -> (states in which it is allowed (None: any), status recorded)
TABLE = {'continue': (CMDS, None), 'reply-code': (CMDS, 'code'), 'temporary-failure': (ANY, 'TEMPORARY_FAILURE'), 'reject': (ANY, 'REJECT'),
         'accept': (ANY, 'ACCEPT'), 'discard': (ANY, 'DISCARD'), 'skip': (['BODY'], None), 'add-header': (EOM, None), 'insert-header': (EOM, None),
         'change-header': (EOM, None), 'delete-header': (EOM, None), 'change-from': (EOM, None), 'add-recipient': (EOM, None),
         'delete-recipient': (EOM, None), 'replace-body': (EOM, None), 'progress': (EOM, None), 'quarantine': (EOM, 'QUARANTINE'),
         'connection-failure': (ANY, 'ERROR'), 'shutdown': (ANY, None), 'negotiate-reply': (['NEGOTIATE'], None)}
FINAL = ['continue', 'reply-code', 'temporary-failure', 'reject', 'accept', 'discard', 'skip', 'connection-failure', 'shutdown', 'negotiate-reply']
ENDS_BODY = ['reply-code', 'temporary-failure', 'reject', 'accept', 'discard', 'skip']
PER_RECIPIENT = ['reply-code', 'temporary-failure', 'reject']
MESSAGE = ['ENVELOPE_FROM', 'ENVELOPE_RECIPIENT', 'DATA', 'UNKNOWN', 'HEADER', 'END_OF_HEADER', 'BODY', 'END_OF_MESSAGE']

def run(ctx):
    p = ctx.prog
    E = p.enum
    m = Model(p)
    ctx.explanation = ("The handler of every reply in the server context is abstractly interpreted for every state, with and without an earlier QUIT; "
        "signals, recorded status, timers, the message result and errors on every path are compared with the protocol's table.")
    for sig, (allowed, status) in TABLE.items():
        hs = m.handler(sig)
        if len(hs) != 1: ctx.violation("connect:" + sig, SC, 1, "the decoder's '%s' has %d handlers in the server context" % (sig, len(hs))); continue
        h = hs[0]; ctx.count("reply handlers")
        cx = ('sym', 'param', h.params[-1]['n'], len(h.params) - 1)
        prm = [('sym', 'param', q['n'], n) for n, q in enumerate(h.params)][1:-1]
        for sv, sn in m.states:
            sname = sn[len(P):]
            todo = [(q, None) for q in (0, 1)]
            prm = [('sym', 'param', q['n'], n) for n, q in enumerate(h.params)][1:-1]
            while todo:
                quitted, fixed = todo.pop(0)
                rule = m.rule(); eng = Engine(p, rule)
                OLD = ('sym', 'old', 'status', 0)
                def setup(eng, st):
                    eng.constrain(st, cx, ne=0)
                    st.env[m.state(cx)] = I(sv); st.env[m.quitted(cx)] = I(quitted); st.env[m.status(cx)] = OLD
                    st.env[m.timer(cx)] = WAIT; st.mon = (('keep', WAIT), ('keep', OLD))
                rs = eng.run(h, {h.params[1]['n']: I(fixed)} if fixed is not None else {}, setup); ctx.used(eng); ctx.count("cases")
                if fixed is not None: prm = [I(fixed)] + prm[1:]
                for st, v in rs:
                    ctx.count("paths")
                    C = lambda x: eng.canon(st, x)
                    V = lambda key, msg: ctx.violation("%s:%s" % (sig, key), SC, h.line, "reply '%s' in state %s%s: %s (path %s)" % (
                        sig, sname, " after QUIT" if quitted else "", msg, trace_str(st.trace)))
                    emits = [(e[1], tuple(C(a) for a in e[2])) for e in events(st, 'emit')]
                    done = [e for e in emits if e[0] == 'message-processed']
                    rest = [e for e in emits if e[0] != 'message-processed']
                    ok = allowed is ANY or sname in allowed
                    if events(st, 'write', 'flush') and sig != 'continue': V("write", "something is written")
                    # timer
                    rm = stopped(st, m, cx, eng)
                    arms = events(st, 'arm')
                    if sig in FINAL and rm is None: V("timer", "the timer that waits for the reply isn't stopped")
                    if sig not in FINAL and sig != 'progress' and (rm is not None and rm >= 0 or arms): V("timer", "the timer is changed")
                    if sig in FINAL and arms and not (sig == 'continue' and sname == 'BODY'): V("arm", "a timer is armed")
                    # what is told
                    comb = events(st, 'combine')
                    if sig == 'negotiate-reply':
                        old = C(('ld', m.option(cx)))
                        had = eng.truth(st, ('ld', m.option(cx)))
                        had = bool(comb) or had is True
                        if had and (len(comb) != 1 or comb[0][2] != C(prm[0])): V("combine", "the options aren't narrowed to what the milter agreed with")
                        if not had and C(st.env.get(m.option(cx), I0)) not in (C(('call', 'option-copy', prm[0])), ('call', 'option-copy', C(prm[0]))): V("copy", "the milter's options aren't kept")
                        if comb and not comb[0][3]:
                            if [e[0] for e in emits] != ['error']: V("newer", "a newer version isn't refused with an error")
                            continue
                    if not ok:
                        if [e[0] for e in emits] != ['error']: V("invalid", "it isn't refused with an error, but %s emitted" % ([e[0] for e in emits] or "nothing is"))
                        continue
                    if any(e[0] == 'error' for e in emits) and not (sig == 'continue' and sname == 'BODY'): V("error", "an error is raised")
                    want = [(sig, tuple(C(x) for x in prm))]
                    if quitted:
                        if [e for e in emits if e[0] != 'error']: V("quitted", "'%s' is emitted" % emits[0][0])
                    elif sig == 'continue' and sname == 'BODY':
                        if len([e for e in rest if e[0] == 'continue']) > 1: V("signal", "'continue' is emitted twice")
                        if any(e[0] not in ('continue', 'error') for e in rest): V("signal", "%s emitted" % [e[0] for e in rest])
                        told = any(e[0] == 'continue' for e in rest)
                        sent = [e for e in events(st, 'write')]
                        left = [c for l, c in st.facts.items() if l[0] == 'ld' and l[1][0] == 'f' and l[1][2] == 'len']
                        if told and (sent or any(c[0] >= 1 for c in left)): V("rest", "'continue' is told although the rest of the body isn't sent")
                        if told and not any(c[1] <= 0 for c in left): V("rest", "'continue' is told without regard to the rest of the body")
                        if not sent and not events(st, 'emit') and any(c[0] >= 1 for c in left): V("rest", "the rest of the body isn't sent")
                        if sent and sent[0][1][-1][:3] != ('call', 'packet', 'body'): V("rest", "something else than the rest of the body is sent")
                    elif rest != want: V("signal", "it isn't told once with what was received, but %s emitted" % ([e[0] for e in rest] or "nothing is"))
                    # status
                    new = C(st.env.get(m.status(cx), I0))
                    rcpt = sname == 'ENVELOPE_RECIPIENT' and sig in PER_RECIPIENT
                    which = status
                    if status == 'code':
                        code = prm[0]
                        lo, hi, ne = eng.cons(st, code)
                        lo, hi = max(lo, 0), min(hi, 2**32 - 1)
                        which = 'TEMPORARY_FAILURE' if lo >= 400 and hi < 500 else 'REJECT' if hi < 400 or lo >= 500 else None
                        if which is None:
                            if fixed is None and not any(t[1] for t in todo): todo += [(quitted, c) for c in range(400, 600)]
                            continue
                    results = [(e[1], e[2]) for e in events(st, 'result')]
                    if rcpt or which is None:
                        if new != C(OLD): V("status", "the status of the session is changed")
                    elif new != I(E(S + which)): V("status", "the recorded status isn't %s" % which)
                    if rcpt and not quitted:
                        kind = 'add_temporary_failed_recipient' if which == 'TEMPORARY_FAILURE' else 'add_rejected_recipient'
                        names = [r[0] for r in results if r[0].endswith('recipient')]
                        if names != [kind, 'remove_recipient']: V("recipient", "the recipient isn't recorded as refused: %s" % names)
                        a = [r[1] for r in results if r[0].endswith('recipient')]
                        if len(set(a)) > 1: V("recipient", "another recipient is removed than is refused")
                    # end of the message
                    ends = sname in MESSAGE and sig in ('accept', 'discard', 'reject', 'temporary-failure', 'reply-code') and not rcpt or sig == 'continue' and sname == 'END_OF_MESSAGE'
                    if quitted or not ends:
                        if done: V("processed", "the message is reported as processed")
                    else:
                        have = eng.truth(st, ('ld', m.result(cx)))
                        if have is False:
                            if done: V("processed", "no message is reported as processed")
                        elif len(done) != 1 or done[0][1] != (C(('ld', m.result(cx))),): V("processed", "the message isn't reported as processed once")
                        else:
                            if [r[1] for r in results if r[0] == 'set_status'] != [(new,)]: V("processed-status", "the message isn't reported with its status")
                            sr = [r[1] for r in results if r[0] == 'set_state']
                            ws = [p.enums.get(M + x + '_REPLIED') for x in ([sname] + (EOM if sname == 'BODY' else []))]
                            if sname != 'UNKNOWN' and sr not in [[(I(w),)] for w in ws]: V("processed-state", "the message isn't reported as replied in its state")
                            if emits.index(done[0]) < emits.index(rest[0]): V("processed-first", "the message is reported before the reply is told")
                    if sname == 'BODY' and sig in ENDS_BODY and not quitted and not events(st, 'truncate'): V("body", "the rest of the body is kept")
                    if sig == 'quarantine' and not quitted and ('set_quarantine', (I1,)) not in results: V("quarantine", "the message isn't recorded as quarantined")
                    if sig == 'progress' and not quitted:
                        k = [e for e in st.mon if e[0] == 'timer-kept']
                        role = handler_signal(p, arms[0][1]) if len(arms) == 1 else None
                        if rm is None or len(arms) != 1 or len(k) != 1 or k[0][1] != m.timerf or 'end-of-message-timeout' not in role: V("progress", "the end of message timer isn't restarted")
                    if sig == 'skip' and not quitted and eng.truth(st, st.env.get(m.skip(cx), I0)) is not True: V("skip", "the rest of the body isn't marked as skipped")
                    if sig == 'negotiate-reply' and not quitted:
                        c = [e for e in events(st, 'call') if e[1] == 'milter_protocol_agent_set_macros_requests']
                        if [e[2] for e in c] != [(C(prm[1]),)]: V("macros", "the milter's macro requests aren't kept")
    ctx.floor("reply handlers", 20); ctx.floor("cases", 600); ctx.floor("paths", 700)
    ctx.assume("a signal's handlers don't change the context's state themselves before returning")

_hs = {}
def handler_signal(p, name):
    """signals emitted by a timer's handler"""
    f = p.resolve(name, SC)
    if f is None: return ()
    if name not in _hs:
        eng = Engine(p, SRule(p, SC)); eng.rule.statef = None
        _hs[name] = {e[1] for st, v in eng.run(f) for e in events(st, 'emit')}
    return _hs[name]
