"""C16: each command of the MTA is handed to its own signal in the right state, and answered exactly when the handler didn't ask for more time."""
from ctxlib import *

P = "MILTER_CLIENT_CONTEXT_STATE_"
CMD = "MILTER_COMMAND_"
# decoder signal -> (state, macro context, signal(s) of the context)
TABLE = {'negotiate': ('NEGOTIATE', None, ['negotiate']), 'connect': ('CONNECT', 'CONNECT', ['connect']), 'helo': ('HELO', 'HELO', ['helo']),
         'envelope-from': ('ENVELOPE_FROM', 'ENVELOPE_FROM', ['envelope-from']), 'envelope-recipient': ('ENVELOPE_RECIPIENT', 'ENVELOPE_RECIPIENT', ['envelope-recipient']),
         'unknown': ('UNKNOWN', None, ['unknown']), 'data': ('DATA', 'DATA', ['data']), 'header': ('HEADER', 'HEADER', ['header']),
         'end-of-header': ('END_OF_HEADER', 'END_OF_HEADER', ['end-of-header']), 'body': ('BODY', 'BODY', ['body', 'body-bytes']),
         'end-of-message': ('END_OF_MESSAGE', 'END_OF_MESSAGE', ['end-of-message', 'end-of-message-bytes']), 'abort': ('ABORT', None, ['abort'])}

def getter_field(prog, name, file):
    """private field returned by a getter"""
    fn = prog.need(name, file)
    eng = Engine(prog, CtxRule(prog, file))
    fs = {v[1][2] for st, v in eng.run(fn) if v[0] == 'ld' and v[1][0] == 'f'}
    if len(fs) != 1: raise AnalysisBroken("%s doesn't return a single field" % name)
    return fs.pop()

class R(CtxRule):
    statef = None
    def on_store(self, eng, st, fr, loc, val, node):
        if loc[0] == 'f' and loc[1][0] == 'd' and loc[1][1][0] == 'priv' and loc[2] == self.statef: self.ev(st, 'state', val)
        if val[0] == 'sym' and val[1] == 'timer' and loc[0] == 'f': self.ev(st, 'timer-kept', loc, val)
    quar = None
    def emit(self, eng, st, fr, n, args, node):
        r = CtxRule.emit(self, eng, st, fr, n, args, node)
        if n.startswith('end-of-message') and not n.endswith('response'):
            loc = self.quar(self.me)
            st.mon = tuple(e + (st.env.get(loc, ('ld', loc)),) if e[:2] == ('emit', n) and len(e) == 3 else e for e in st.mon)
        return r
    def on_call(self, eng, st, fr, name, args, node):
        if name in ('milter_protocol_agent_set_macros_hash_table', 'milter_protocol_agent_clear_message_related_macros',
                    'milter_client_context_clear_mail_transaction_shelf'):
            self.ev(st, 'call', name, tuple(eng.canon(st, a) for a in args[1:])); return [(st, I0)]
        if name == 'milter_option_copy': return [(st, ('call', 'option-copy', args[0]))]
        if name == 'milter_macros_requests_new': return [(st, ('call', 'requests'))]
        return CtxRule.on_call(self, eng, st, fr, name, args, node)
    nn = CtxRule.nn + ('option-copy', 'requests')

def run(ctx):
    p = ctx.prog
    E = p.enum
    ctx.explanation = ("The handler of every decoder signal in the client context is abstractly interpreted with helpers inlined; the order of "
        "state change, timer stop, macro context, signal and response signal on every path is compared with the protocol's table.")
    conn = connections(p, CC)
    statef = getter_field(p, 'milter_client_context_get_state', CC)
    _, quar = getter_loc(p, 'milter_client_context_get_quarantine_reason', CC)
    progress = I(E('MILTER_STATUS_PROGRESS'))
    for sig in list(TABLE) + ['quit', 'define-macro']:
        hs = [p.resolve(h[0], CC) for h in conn.get(sig, [])]
        hs = [h for h in hs if h is not None]
        if len(hs) != 1: 
            ctx.violation("connect:" + sig, CC, 1, "the decoder's '%s' has %d handlers in the client context" % (sig, len(hs)))
            continue
        h = hs[0]
        rule = R(p, CC); rule.statef, rule.quar = statef, quar
        eng = Engine(p, rule)
        rule.me = cx = ('sym', 'param', h.params[-1]['n'], len(h.params) - 1)
        def setup(eng, st, cx=cx):
            eng.constrain(st, cx, ne=0)
        rs = eng.run(h, {}, setup)
        ctx.used(eng); ctx.count("command handlers")
        ps = [('sym', 'param', q['n'], n) for n, q in enumerate(h.params)][1:-1]
        seen = set()
        ps0 = ps
        for st, v in rs:
            ctx.count("paths")
            ps = [eng.canon(st, x) for x in ps0]
            K = lambda t: tuple(eng.canon(st, x) for x in t)
            V = lambda key, msg: ctx.violation("%s:%s" % (sig, key), CC, h.line, "command '%s': %s (path %s)" % (sig, msg, trace_str(st.trace)))
            states = [e[1] for e in events(st, 'state')]
            emits = [(n, e) for n, e in enumerate(st.mon) if e[0] == 'emit']
            sent = events(st, 'write', 'flush')
            if sent: V("sent", "something is written by the command's handler itself")
            # the waiting timer is stopped before anything else is told
            t0 = [l for l in rule_timers(st)]
            if sig == 'quit':
                if states != [I(E(P + 'QUIT'))] or emits or not events(st, 'shutdown'): V("quit", "the session isn't put in the quit state and shut down")
                continue
            removed = index(st, lambda e: e[0] == 'remove')
            idle = any(f[0] == 'ld' and f[1][0] == 'f' and f[1][2] == timer_field(p) and c[:2] == (0, 0) for f, c in st.facts.items())
            if removed is None and not idle: V("timer", "the timer that waits for the MTA isn't stopped")
            if sig == 'define-macro':
                calls = [e for e in events(st, 'call') if e[1] == 'milter_protocol_agent_set_macros_hash_table']
                if [K(e[2]) for e in calls] != [tuple(ps)]: V("macros", "the macros aren't kept for their command")
                if [(e[1], K(e[2])) for n, e in emits] != [('define-macro', tuple(ps))]: V("emit", "the signal isn't emitted with the command and its macros")
                continue
            sname, macro, sigs = TABLE[sig]
            want = I(E(P + sname))
            if states != [want]: V("state", "the states entered are %s" % [str(x[1]) for x in states])
            if not emits or emits[0][1][1] not in sigs: V("signal", "%s emitted first" % ("'%s' is" % emits[0][1][1] if emits else "nothing is")); continue
            first, e0 = emits[0]
            seen.add(e0[1])
            si = index(st, lambda e: e[0] == 'state')
            if si is None or si > first: V("state-late", "the signal is emitted before the state is entered")
            if removed is not None and removed > first: V("timer-late", "the signal is emitted before the timer is stopped")
            ms = [(n, e[1]) for n, e in enumerate(st.mon) if e[0] == 'macro']
            if macro and ([m for n, m in ms] != [I(E(CMD + macro))] or ms[0][0] > first): V("macro", "the macros of this command aren't selected before the signal")
            if not macro and ms: V("macro", "the macro context is changed")
            args = tuple(eng.canon(st, x) for x in e0[2])
            if sig == 'negotiate':
                ok = args == (ps[0], ('call', 'requests'))
                opt = [v for l, v in st.env.items() if l[0] == 'f' and v in (('call', 'option-copy', ps0[0]), ('call', 'option-copy', ps[0]))]
                if not opt: V("option", "the MTA's options aren't kept as a copy")
            elif sig == 'abort':
                ok = len(args) == 1 and args[0][0] == 'ld' and args[0][1][0] == 'f' and args[0][1][2] == statef
            elif e0[1].endswith('-bytes'):
                b = args[0] if args else None
                chunk, size = ps
                empty = eng.truth(st, chunk) is False or eng.truth(st, eng.mkop(st, '==', size, I0)) is True or eng.cons(st, size)[1] <= 0
                ok = b == I0 and empty or b == eng.canon(st, ('call', 'bytes', ps0[0], ps0[1])) or b == ('call', 'bytes', chunk, size)
            else: ok = args == tuple(ps)
            if not ok: V("arguments", "'%s' isn't emitted with what was received" % e0[1])
            if sig == 'end-of-message' and eng.truth(st, e0[3]) is not False:
                V("quarantine", "a quarantine asked for an earlier message isn't dropped before the signal")
            if sig == 'abort':
                clear = index(st, lambda e: e[0] == 'call' and e[1] == 'milter_protocol_agent_clear_message_related_macros')
                if clear is None or clear < first: V("reset", "the message's macros aren't cleared after the signal")
                if index(st, lambda e: e[0] == 'call' and e[1] == 'milter_client_context_clear_mail_transaction_shelf') is None: V("reset-shelf", "the message's own values aren't cleared")
            ret = ('sym', 'returned', e0[1], 0)
            t = eng.truth(st, eng.mkop(st, '==', ret, progress))
            if t is True:
                if len(emits) != 1: V("progress", "'%s' is emitted although the handler asked for more time" % emits[1][1][1])
            elif t is None: V("undecided", "the response doesn't depend on whether the handler asked for more time")
            else:
                resp = sig + "-response"
                wantargs = (ps[0], ('call', 'requests'), ret) if sig == 'negotiate' else (ret,)
                if [(e[1], K(e[2])) for n, e in emits[1:]] != [(resp, K(wantargs))]: V("response", "%s follow(s) the signal instead of '%s' with its status" % ([e[1] for n, e in emits[1:]] or "nothing", resp))
        if sig in TABLE and set(TABLE[sig][2]) - seen: ctx.violation("%s:never" % sig, CC, h.line, "command '%s': '%s' is never emitted" % (sig, (set(TABLE[sig][2]) - seen).pop()))
    ctx.floor("command handlers", 14); ctx.floor("paths", 30)
    ctx.assume("a signal's handlers don't change the context's state themselves before returning")

def rule_timers(st): return [l for l, v in st.env.items() if v[0] == 'sym' and v[1] == 'timer']
_tf = {}
def timer_field(prog, file=CC):
    """field which keeps the id of the timer, found where the id is stored"""
    if file not in _tf:
        fields = set()
        for f in prog.fns.values():
            if f.file != file or not any(n == 'milter_event_loop_add_timeout' for n, _ in f.callees): continue
            class W(CtxRule):
                def on_store(self, eng, st, fr, loc, val, node):
                    if val[0] == 'sym' and val[1] == 'timer' and loc[0] == 'f': fields.add(loc[2])
            Engine(prog, W(prog, file)).run(f)
        if len(fields) != 1: raise AnalysisBroken("the waiting timer of %s isn't kept in a single field" % file)
        _tf[file] = fields.pop()
    return _tf[file]
