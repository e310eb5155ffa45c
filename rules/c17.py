"""C17: a session's leader hands every command on to the child milters and every reply of theirs back to the MTA."""
from ctxlib import *

LD, MM, CH = "milter/manager/milter-manager-leader.c", "milter/manager/milter-manager.c", "milter/manager/milter-manager-children.c"
P, S = "MILTER_MANAGER_LEADER_STATE_", "MILTER_STATUS_"
# signal of the client context -> (leader state, command of the children)
COMMANDS = {'negotiate': 'NEGOTIATE', 'connect': 'CONNECT', 'helo': 'HELO', 'envelope-from': 'ENVELOPE_FROM', 'envelope-recipient': 'ENVELOPE_RECIPIENT',
            'data': 'DATA', 'unknown': 'UNKNOWN', 'header': 'HEADER', 'end-of-header': 'END_OF_HEADER', 'body': 'BODY', 'end-of-message': 'END_OF_MESSAGE',
            'abort': 'ABORT', 'finished': 'QUIT', 'timeout': 'QUIT', 'define-macro': None}
REPLIES = {'continue': 'CONTINUE', 'temporary-failure': 'TEMPORARY_FAILURE', 'reject': 'REJECT', 'accept': 'ACCEPT', 'discard': 'DISCARD', 'skip': 'SKIP'}
STATES = ['NEGOTIATE', 'CONNECT', 'HELO', 'ENVELOPE_FROM', 'ENVELOPE_RECIPIENT', 'DATA', 'UNKNOWN', 'HEADER', 'END_OF_HEADER', 'BODY', 'END_OF_MESSAGE', 'ABORT']
MODIFICATIONS = ['add-header', 'insert-header', 'change-header', 'delete-header', 'change-from', 'add-recipient', 'delete-recipient', 'replace-body', 'progress', 'quarantine']
CHILDREN = ('call', 'the-children')

class R(CtxRule):
    """events: ('child', command, object, args, result), ('tell', what, object, args, result), ('emit', name, object, args), ('hook', signal, object, data)"""
    statef = replied = None
    def inline(self, eng, f): return f.file in (LD, MM) and f.name not in self.stop
    def on_store(self, eng, st, fr, loc, val, node):
        if loc[0] == 'f' and loc[1][0] == 'd' and loc[1][1][0] == 'priv' and loc[1][1][2] == 'miltermanagerleader':
            self.ev(st, 'set', loc[2], eng.canon(st, val), loc)
    def on_call(self, eng, st, fr, name, args, node):
        C = lambda vs: tuple(eng.canon(st, x) for x in vs)
        if name == 'milter_manager_children_new': return [(st, CHILDREN)]
        if name == 'milter_manager_configuration_setup_children': self.ev(st, 'configured', args[1]); return [(st, I0)]
        if name == 'milter_manager_configuration_get_fallback_status': return [(st, ('call', 'fallback'))]
        if name == 'milter_manager_configuration_get_fallback_status_at_disconnect': return [(st, ('call', 'fallback-disconnect'))]
        if name == 'milter_manager_children_error_quark': return [(st, ('call', 'children-error'))]
        m = re.match(r'milter_manager_children_(\w+)$', name)
        if m and not re.match(r'(get|is|set)_', m.group(1)):
            s, r = st.copy(), st.copy()
            for x, n in ((st, 1), (s, 0)): self.ev(x, 'child', m.group(1), args[0], C(args[1:]), n)
            out = [(st, I1), (s, I0)]
            if self.replied is not None:        # refused, but an error has been answered to the MTA meanwhile
                self.ev(r, 'child', m.group(1), args[0], C(args[1:]), 2)
                r.env[self.replied[0]] = self.replied[1]
                out.append((r, I0))
            return out
        m = re.match(r'milter_client_context_(\w+)$', name)
        if m and not re.match(r'(get|is)_', m.group(1)):
            f = self.p.resolve(name, CC)
            errp = args[-1] if f is not None and f.params[-1]['n'] == 'error' else None
            s = st.copy()
            a = C(args[1:-1] if errp is not None else args[1:])
            self.ev(st, 'tell', m.group(1), eng.canon(st, args[0]), a, 1); self.ev(s, 'tell', m.group(1), eng.canon(st, args[0]), a, 0)
            if errp is not None and errp[0] == '&':
                v = eng.fresh(s, fr, ('error', node['l']), 'error'); s.env[errp[1]] = v; eng.constrain(s, v, ne=0)
            return [(st, I1), (s, I0)]
        if name == 'milter_agent_shutdown': self.ev(st, 'shutdown', eng.canon(st, args[0])); return [(st, I0)]
        if name in ('milter_error_emittable_emit', 'milter_finished_emittable_emit'):
            self.ev(st, 'emit', name.split('_')[1], args[0], C(args[1:])); return [(st, I0)]
        if name == 'g_signal_emit_by_name':
            self.ev(st, 'emit', norm(args[1][1]) if args[1][0] == 's' else '?', eng.canon(st, args[0]), C(args[2:])); return [(st, I0)]
        if name == 'g_signal_emit':
            n = sig_of(self.p, fr.fn.file, args[1], node) or '?'
            self.ev(st, 'emit', n, eng.canon(st, args[0]), ())
            out = args[-1]
            if len(args) > 3 and out[0] == '&': st.env[out[1]] = ('sym', 'returned', n, 0); self.ev(st, 'ret', ('sym', 'returned', n, 0))
            return [(st, I0)]
        if name in ('g_signal_connect_data', 'g_signal_connect_object'):
            if args[1][0] == 's': self.ev(st, 'hook', norm(args[1][1]), args[0], args[3])
            return [(st, I1)]
        if name in ('g_error_new', 'g_error_new_literal'):
            v = eng.fresh(st, fr, ('error', node['l']), 'error'); eng.constrain(st, v, ne=0); return [(st, v)]
        if name.startswith('g_signal_handlers_disconnect'): return [(st, I0)]
        return CtxRule.on_call(self, eng, st, fr, name, args, node)
    nn = CtxRule.nn + ('the-children',)

def run(ctx):
    p = ctx.prog
    E = p.enum
    ctx.explanation = ("Each handler by which the manager listens to a client context, and each handler by which a leader listens to its children, is "
        "abstractly interpreted (manager and leader inlined) for every state of the leader, with and without children, for succeeding and failing "
        "calls; what is handed on, emitted and returned on every path is compared with the table of commands and replies.")
    cmds, reps = connections(p, MM), connections(p, LD)
    states = enum_values(p, P)
    childrenf, children = getter_loc(p, 'milter_manager_leader_get_children', LD)
    base = lambda obj: children(obj)[1]
    # the state field: where the leader keeps a state constant
    got = {}
    for n in ('connect', 'helo', 'data', 'unknown'):
        f = p.need('milter_manager_leader_' + n, LD)
        for st, v in Engine(p, R(p, LD)).run(f):
            for e in events(st, 'set'):
                if e[2] == I(E(P + n.upper())): got.setdefault(e[1], set()).add(n)
    fs = [k for k, v in got.items() if len(v) > 1]
    if len(fs) != 1: raise AnalysisBroken("the leader's state isn't kept in a single field")
    statef = fs[0]
    sv = lambda n: I(E(P + n))
    def root(f, name, cx, state=None, kids=True, flags={}, args={}, replied=None):
        rule = R(p, f.file); rule.replied = replied and (('f', base(cx), statef), sv(replied)); eng = Engine(p, rule)
        def setup(eng, st):
            eng.constrain(st, cx, ne=0)
            b = base(cx)
            st.env[('f', b, childrenf)] = CHILDREN if kids else I0
            if state is not None: st.env[('f', b, statef)] = state
            for k, v in flags.items(): st.env[('f', b, k)] = v
        rs = eng.run(f, args, setup)
        ctx.used(eng); ctx.count("cases")
        return eng, rs
    # the flag which remembers an end of message during the body
    f = p.need('milter_manager_leader_end_of_message', LD)
    cx = ('sym', 'param', f.params[0]['n'], 0)
    eng, rs = root(f, '', cx, sv('BODY'))
    flags = {e[1] for st, v in rs for e in events(st, 'set') if e[1] != statef and e[2] == I1}
    if len(flags) > 1: raise AnalysisBroken("several flags are set by an end of message")
    flag = next(iter(flags), None)
    mtas = {}           # fields of the leader through which the MTA's context is reached
    def is_mta(o):
        if o[0] == 'ld' and o[1][0] == 'f' and o[1][1][0] == 'd' and o[1][1][1][0] == 'priv':
            mtas[o[1][2]] = 1; return True
        return False
    # commands
    for sig, want in COMMANDS.items():
        hs = [p.resolve(h[0], MM) for h in cmds.get(sig, [])]
        hs = [h for h in hs if h is not None and len(h.params) > 1 and 'ClientContext' in h.params[0].get('t', 'ClientContext')]
        if sig == 'finished': hs = [h for h in hs if any(n == 'milter_manager_leader_quit' for n, _ in h.callees)] or hs
        hs = sorted({h.name: h for h in hs}.values(), key=lambda h: h.name)
        if len(hs) != 1: ctx.violation("connect:" + sig, MM, 1, "'%s' of the client context has %d handlers in the manager" % (sig, len(hs))); continue
        h = hs[0]
        ctx.count("command handlers")
        cx = ('sym', 'param', h.params[-1]['n'], len(h.params) - 1)
        ps = [('sym', 'param', q['n'], n) for n, q in enumerate(h.params)][1:-1]
        cmd = {'finished': 'quit', 'timeout': 'quit'}.get(sig, sig.replace('-', '_'))
        for kids in (True, False):
            for before in ([sv(n[len(P):]) for v, n in states] if sig == 'end-of-message' else [None]):
                # what the state becomes when the command is answered while the children are asked
                rep = None
                if sig == 'end-of-message':
                    rep = {sv('BODY'): 'END_OF_MESSAGE'}.get(before) if before in [sv(n) for n in STATES + ['QUIT']] and before != sv('END_OF_MESSAGE') else 'END_OF_MESSAGE_REPLIED'
                elif want not in (None, 'QUIT', 'ABORT'): rep = want + '_REPLIED'
                eng, rs = root(h, sig, cx, before, kids, replied=rep)
                if not rs: ctx.violation("%s:none" % sig, MM, h.line, "no path through the handler of '%s' returns" % sig)
                for st, v in rs:
                    ctx.count("paths")
                    V = lambda key, msg: ctx.violation("%s:%s" % (sig, key), MM, h.line, "command '%s'%s: %s (path %s)" % (sig, "" if kids else " without children", msg, trace_str(st.trace)))
                    C = lambda x: eng.canon(st, x)
                    calls = events(st, 'child')
                    sets = [e for e in events(st, 'set') if e[1] == statef]
                    told = [e for e in events(st, 'tell')] + [e for e in events(st, 'emit')]
                    if told: V("told", "the MTA's context or the leader is told something ('%s')" % told[0][1])
                    if want is None:
                        if sets: V("state", "the leader's state changes")
                    elif sig == 'end-of-message':
                        waiting = before in [sv(n) for n in STATES + ['QUIT']]
                        ok = not sets if waiting else [e[2] for e in sets] == [sv(want)]
                        if waiting and not [e for e in events(st, 'set') if e[1] == flag and e[2] == I1]: V("flag", "an end of message which comes before the last reply isn't remembered")
                        if not ok: V("state", "the leader's state is %s" % ("changed although a reply is still waited for" if waiting else "not END_OF_MESSAGE"))
                    elif [e[2] for e in sets] != [sv(want)]: V("state", "the leader doesn't go to its %s state" % want)
                    if sig in ('finished', 'timeout', 'abort', 'define-macro'): wantret = None
                    else: wantret = ('call', 'fallback')
                    if sig == 'negotiate':
                        if CHILDREN not in [C(e[2]) for e in calls]: V("forward", "the negotiation isn't handed on to the new children"); continue
                    elif not kids:
                        if calls: V("no-children", "children are called although there are none")
                        if wantret is not None and C(v) != wantret: V("no-children-status", "the fallback status isn't returned")
                        continue
                    a = () if sig in ('abort', 'finished', 'timeout') else tuple(C(x) for x in ps)
                    if [(e[1], C(e[2]), tuple(C(x) for x in e[3])) for e in calls] != [(cmd, CHILDREN, a)]:
                        V("forward", "the children aren't given exactly this command with its arguments once but %s" % [e[1] for e in calls]); continue
                    if wantret is not None:
                        answered = calls[0][4] == 2 and rep.endswith('REPLIED')
                        w = I(E(S + 'PROGRESS')) if calls[0][4] == 1 or answered else wantret
                        if C(v) != w: V("status%d" % calls[0][4], "the status returned isn't %s" % ("PROGRESS although the children accepted the command" if calls[0][4] == 1
                                        else "PROGRESS although it was already answered while the children were asked" if answered else "the fallback status although the children refused the command"))
                    if sig == 'body' and flag and C(st.env.get(('f', base(cx), flag), I1)) != I0: V("flag", "an end of message of an earlier body is still remembered")
                    if sig == 'abort' and C(v) != I(E(S + 'DEFAULT')): V("status", "the status returned isn't DEFAULT")
                    if sets and index(st, lambda e: e[0] == 'set' and e[1] == statef) > index(st, lambda e: e[0] == 'child'): V("state-late", "the children are called before the state is entered")
                    if sig == 'negotiate':
                        ni = index(st, lambda e: e[0] == 'child')
                        hooked = {e[1] for n, e in enumerate(st.mon) if e[0] == 'hook' and n < ni and C(e[2]) == CHILDREN and C(e[3]) == cx}
                        for s in sorted(set(REPLIES) | set(MODIFICATIONS) | {'negotiate-reply', 'reply-code', 'abort', 'error', 'finished'} - hooked):
                            if s not in hooked: V("listen:" + s, "the leader doesn't listen to '%s' of its children before they are asked" % s)
                        ci = index(st, lambda e: e[0] == 'configured')
                        if ci is None or ci > ni: V("configured", "the configured milters aren't added before the negotiation")
                        if C(st.env.get(('f', base(cx), childrenf), I0)) != CHILDREN: V("kept", "the children aren't kept")
    # replies
    def check_reply(sig, V, eng, st, before, flagged, status, cx, extra=()):
        C = lambda x: eng.canon(st, x)
        sname = next(n[len(P):] for v, n in states if I(v) == before)
        emits = [(e[1], e[2], e[3]) for e in events(st, 'emit')]
        resp = [e for e in emits if e[0].endswith('-response')]
        others = [e for e in emits if not e[0].endswith('-response')]
        end = C(st.env.get(('f', base(cx), statef), before))
        if sname == 'BODY_REPLIED': return
        if sname in STATES:
            name = sname.lower().replace('_', '-') + '-response'
            if [e[0] for e in resp] != [name] or not is_mta(resp[0][1]): V("signal:" + sname, "in state %s %s emitted for the MTA, not '%s'" % (sname, ["'%s' is" % e[0] for e in resp] or "nothing is", name)); return
            if resp[0][2] != ((I0, I0) if sname == 'NEGOTIATE' else ()) + (status,): V("status:" + sname, "in state %s '%s' isn't emitted with the reply's status" % (sname, name))
            nxt = sname + '_REPLIED'
            if sname == 'BODY' and flagged: nxt = 'END_OF_MESSAGE'
            if end != sv(nxt): V("next:" + sname, "after a reply in state %s%s the state isn't %s" % (sname, " with the end of message already sent" if flagged else "", nxt))
            if [e for e in others if e not in extra]: V("others:" + sname, "'%s' is also emitted" % others[0][0])
        else:
            real = [e for e in resp if e[0] in declared]
            if real: V("unexpected:" + sname, "in state %s '%s' is emitted for the MTA" % (sname, real[0][0]))
            if sname == 'QUIT': return
            if ('error', cx) not in [(e[0], C(e[1])) for e in others]: V("no-error:" + sname, "a reply in state %s isn't reported as an error" % sname)
            if end != before: V("next:" + sname, "a reply which isn't expected in state %s changes the state" % sname)
    declared = {n for (f, n) in siglib.declared(p) if f == CC}
    def rh(sig):
        hs = sorted({h[0] for h in reps.get(sig, [])})
        fs = [p.resolve(h, LD) for h in hs]
        fs = [h for h in fs if h is not None]
        if len(fs) != 1: ctx.violation("connect:" + sig, LD, 1, "'%s' of the children has %d handlers in the leader" % (sig, len(fs))); return None
        ctx.count("reply handlers")
        return fs[0]
    def each(h, sig, combos):
        cx = ('sym', 'param', h.params[-1]['n'], len(h.params) - 1)
        for before, flagged, args in combos:
            eng, rs = root(h, sig, cx, before, True, {flag: I(flagged)} if flag else {}, args)
            for st, v in rs:
                ctx.count("paths")
                def V(key, msg, st=st): ctx.violation("%s:%s" % (sig, key), LD, h.line, "reply '%s': %s (path %s)" % (sig, msg, trace_str(st.trace)))
                yield eng, st, cx, before, flagged, args, V
    allst = [(I(v), fl, {}) for v, n in states for fl in ((0, 1) if n == P + 'BODY' else (0,))]
    for sig, status in REPLIES.items():
        h = rh(sig)
        if h is None: continue
        for eng, st, cx, before, fl, args, V in each(h, sig, allst):
            check_reply(sig, V, eng, st, before, fl, I(E(S + status)), cx)
            if events(st, 'tell', 'child', 'shutdown'): V("other", "something else is told")
    h = rh('reply-code')
    if h is not None:
        code = h.params[1]['n']
        pm = [('sym', 'param', q['n'], n) for n, q in enumerate(h.params)]
        helo = [(sv(n), 0, {code: I(c)}) for n in ('HELO', 'ENVELOPE_RECIPIENT', 'END_OF_MESSAGE', 'START') for c in range(400, 600, 1 if n == 'HELO' else 99)]
        for eng, st, cx, before, fl, args, V in each(h, 'reply-code', helo):
            c = args[code]
            C = lambda x: eng.canon(st, x)
            t = events(st, 'tell')
            if [e[1] for e in t] != ['set_reply'] or tuple(C(x) for x in t[0][3]) != (c, C(pm[2]), C(pm[3])) or not is_mta(t[0][2]): V("text", "the code and text aren't kept for the MTA"); continue
            status = I(E(S + ('TEMPORARY_FAILURE' if c[1] // 100 == 4 else 'REJECT')))
            ei = index(st, lambda e: e[0] == 'emit' and e[1].endswith('-response')); ti = index(st, lambda e: e[0] == 'tell')
            if ei is not None and ei < ti: V("late", "the text is set after the reply")
            ex = [(e[1], e[2], e[3]) for e in events(st, 'emit') if e[1] == 'error']
            if not t[0][4] and not ex: V("error", "a text which can't be passed on isn't reported")
            check_reply('reply-code', V, eng, st, before, fl, status, cx, ex if not t[0][4] else ())
    h = rh('negotiate-reply')
    if h is not None:
        pm = [('sym', 'param', q['n'], n) for n, q in enumerate(h.params)]
        for eng, st, cx, before, fl, args, V in each(h, 'negotiate-reply', [(sv('NEGOTIATE'), 0, {})]):
            em = events(st, 'emit')
            if [(e[1], tuple(eng.canon(st, x) for x in e[3])) for e in em] != [('negotiate-response', (eng.canon(st, pm[1]), eng.canon(st, pm[2]), I(E(S + 'CONTINUE'))))] or not is_mta(em[0][2]):
                V("emit", "the MTA isn't given the options and macro requests with CONTINUE once")
    for sig in MODIFICATIONS:
        h = rh(sig)
        if h is None: continue
        pm = [('sym', 'param', q['n'], n) for n, q in enumerate(h.params)][1:-1]
        for eng, st, cx, before, fl, args, V in each(h, sig, [(None, 0, {})]):
            t = events(st, 'tell')
            if [e[1] for e in t] != [sig.replace('-', '_')] or not is_mta(t[0][2]): V("function", "%s asked of the MTA's context instead of exactly '%s'" % ([e[1] for e in t] or "nothing is", sig)); continue
            if tuple(eng.canon(st, x) for x in t[0][3]) != tuple(eng.canon(st, x) for x in pm): V("arguments", "it isn't passed on with its own arguments")
            er = [eng.canon(st, e[2]) for e in events(st, 'emit') if e[1] == 'error']
            if sig in ('progress', 'quarantine'): continue
            if t[0][4] and events(st, 'emit'): V("told", "something is emitted although it was passed on")
            if not t[0][4] and er != [cx]: V("error", "a failure isn't reported as one error of the leader")
            if [e for e in events(st, 'set')]: V("state", "a modification changes the leader")
    h = rh('error')
    if h is not None:
        pm = [('sym', 'param', q['n'], n) for n, q in enumerate(h.params)]
        for eng, st, cx, before, fl, args, V in each(h, 'error', allst):
            C = lambda x: eng.canon(st, x)
            dom = ('ld', ('f', ('d', pm[1]), 'domain'))
            own = eng.truth(st, eng.mkop(st, '==', dom, ('call', 'children-error')))
            em = [(e[1], C(e[2]), tuple(C(x) for x in e[3])) for e in events(st, 'emit')]
            first = ('error', cx, (C(pm[1]),))
            if not em or em[0] != first: V("emit", "the children's error isn't emitted by the leader first"); continue
            if own is None: V("domain", "whose error it is isn't looked at")
            elif not own:
                if len(em) > 1: V("reply", "an error of a single milter's connection is answered to the MTA")
            else:
                st.mon = tuple(e for n, e in enumerate(st.mon) if n != index(st, lambda e: e[0] == 'emit' and e[1] == 'error'))
                check_reply('error', V, eng, st, before, fl, ('call', 'fallback'), cx)
    for sig in ('abort', 'finished'):
        h = rh(sig)
        if h is None: continue
        for eng, st, cx, before, fl, args, V in each(h, sig, [(sv('BODY'), 0, {})]):
            em = [(e[1], eng.canon(st, e[2])) for e in events(st, 'emit')]
            if em != [('finished', cx)]: V("finished", "the leader isn't reported as finished once")
            sd = events(st, 'shutdown')
            if (sig == 'abort') != bool(sd) or sd and not is_mta(sd[0][1]): V("shutdown", "the MTA's connection is%s shut down" % ("n't" if sig == 'abort' else ""))
    # a client found to be gone
    f = p.need('milter_manager_leader_check_connection', LD)
    cx = ('sym', 'param', f.params[0]['n'], 0)
    for v0, n0 in states:
        eng, rs = root(f, '', cx, I(v0), True)
        for st, v in rs:
            ctx.count("paths")
            V = lambda key, msg: ctx.violation("gone:" + key, LD, f.line, "connection check: %s (path %s)" % (msg, trace_str(st.trace)))
            asked = [e for e in events(st, 'emit') if e[1] == 'connection-check']
            t = eng.truth(st, ('sym', 'returned', 'connection-check', 0)) if asked else True
            calls = [e[1] for e in events(st, 'child')]
            if t is None: V("ignored", "the result of the check has no effect")
            elif t:
                if calls or events(st, 'tell') or [e for e in events(st, 'emit') if e[1] != 'connection-check']: V("there", "a session whose client is connected is ended")
                if eng.truth(st, v) is False: V("result", "a connected client is reported as gone")
            else:
                if calls != ['abort', 'quit']: V("children", "the children aren't aborted and quit but %s" % calls)
                if eng.truth(st, v) is not False: V("result", "a client which is gone is reported as connected")
                st.mon = tuple(e for e in st.mon if not (e[0] == 'emit' and e[1] == 'connection-check'))
                if n0[len(P):] in STATES: check_reply('gone', V, eng, st, I(v0), eng.truth(st, st.env.get(('f', base(cx), flag), ('ld', ('f', base(cx), flag)))), ('call', 'fallback-disconnect'), cx)
    if len(mtas) != 1: ctx.violation("mta", LD, 1, "replies go to %d different contexts (%s)" % (len(mtas), ", ".join(sorted(mtas))))
    ctx.floor("command handlers", 15); ctx.floor("reply handlers", 20); ctx.floor("paths", 400); ctx.floor("cases", 400)
