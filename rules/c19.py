"""C19: each command is handed to a milter as exactly its own packet, or is skipped or stopped as negotiated, and is waited for."""
from sclib import *
import c18
C_ = "MILTER_COMMAND_"
# function -> (state, command whose macros are sent, stop signal, step flag, packet, signal when skipped)
TABLE = {'negotiate': ('NEGOTIATE', None, None, None, 'negotiate', None),
         'connect': ('CONNECT', 'CONNECT', 'stop-on-connect', 'NO_CONNECT', 'connect', 'continue'),
         'helo': ('HELO', 'HELO', 'stop-on-helo', 'NO_HELO', 'helo', 'continue'),
         'envelope_from': ('ENVELOPE_FROM', 'ENVELOPE_FROM', 'stop-on-envelope-from', 'NO_ENVELOPE_FROM', 'envelope_from', 'continue'),
         'envelope_recipient': ('ENVELOPE_RECIPIENT', 'ENVELOPE_RECIPIENT', 'stop-on-envelope-recipient', 'NO_ENVELOPE_RECIPIENT', 'envelope_recipient', 'continue'),
         'data': ('DATA', 'DATA', 'stop-on-data', 'NO_DATA', 'data', 'continue'),
         'unknown': ('UNKNOWN', None, None, 'NO_UNKNOWN', 'unknown', 'continue'),
         'header': ('HEADER', 'HEADER', 'stop-on-header', 'NO_HEADERS', 'header', 'continue'),
         'end_of_header': ('END_OF_HEADER', 'END_OF_HEADER', 'stop-on-end-of-header', 'NO_END_OF_HEADER', 'end_of_header', 'continue'),
         'body': ('BODY', 'BODY', 'stop-on-body', 'NO_BODY', 'body', 'skip'),
         'end_of_message': ('END_OF_MESSAGE', 'END_OF_MESSAGE', 'stop-on-end-of-message', None, 'end_of_message', None),
         'quit': ('QUIT', None, None, None, 'quit', None), 'abort': ('ABORT', None, None, None, 'abort', None)}
SELECT = ['connect', 'envelope_from', 'envelope_recipient', 'data', 'header', 'end_of_header', 'body', 'end_of_message']
NO_REPLY = {'CONNECT': 'CONNECT', 'HELO': 'HELO', 'ENVELOPE_FROM': 'ENVELOPE_FROM', 'ENVELOPE_RECIPIENT': 'ENVELOPE_RECIPIENT', 'DATA': 'DATA',
            'HEADER': 'HEADER', 'END_OF_HEADER': 'END_OF_HEADER', 'BODY': 'BODY', 'UNKNOWN': 'UNKNOWN'}
MACROS, REQ = ('sym', 'macros', 'agent', 0), ('sym', 'requests', 'agent', 0)

class R(SRule):
    nodes = None
    def on_call(self, eng, st, fr, name, args, node):
        base = name.replace('_inline', '')
        if base in ('g_list_append', 'g_queue_push_tail'):
            self.ev(st, 'queue', args[0], eng.canon(st, args[1])); v = eng.fresh(st, fr, ('list', node['l']), 'list'); eng.constrain(st, v, ne=0); return [(st, v)]
        if base == 'g_list_free': self.ev(st, 'list-free', args[0]); return [(st, I0)]
        if base == 'g_list_last' or base == 'g_list_first':
            v = eng.fresh(st, fr, ('node', node['l']), 'node'); eng.constrain(st, v, ne=0); return [(st, v)]
        if name == 'milter_protocol_agent_get_macros':
            c = next((e[1] for e in reversed(st.mon) if e[0] == 'macro'), None)
            self.ev(st, 'macros-of', c)
            return [(st, ('call', 'macros', c) if c is not None else MACROS)]
        if name == 'milter_protocol_agent_get_macros_requests': return [(st, REQ)]
        if name == 'milter_macros_requests_get_symbols': return [(st, ('call', 'symbols', args[0], eng.canon(st, args[1])))]
        if base in ('g_hash_table_new_full', 'g_hash_table_new'): return [(st, ('call', 'table', node['l']))]
        if base == 'g_hash_table_lookup': return [(st, ('call', 'lookup', args[0], args[1]))]
        if base in ('g_hash_table_insert', 'g_hash_table_replace'): 
            k = args[1][2] if args[1][:2] == ('call', 'dup') else None
            x = args[2][2] if args[2][:2] == ('call', 'dup') else args[2]
            e = ('insert', args[0], x[2] if args[2][:2] == ('call', 'dup') and x[:2] == ('call', 'lookup') and x[3] == k else None)
            if e not in st.mon: st.mon += (e,)
            return [(st, I1)]
        if base == 'g_hash_table_size':
            v = ('call', 'entries', args[0]); eng.constrain(st, v, lo=0); return [(st, v)]
        if base == 'g_string_erase': self.ev(st, 'erase', args[0], args[1], args[2]); return [(st, args[0])]
        if base in ('g_string_new_len', 'g_string_new') and len(args) > 1:
            r = SRule.on_call(self, eng, st, fr, name, args, node)
            self.ev(st, 'copied', args[0], eng.canon(st, args[1])); return r
        m = re.match(r'milter_command_encoder_encode_body$', name)
        if m:
            r = SRule.on_call(self, eng, st, fr, name, args[:5], node)
            if len(args) > 5 and args[5] != I0: self.set_out(eng, st, fr, args[5], ('call', 'packed', eng.canon(st, args[4])))
            return r
        return SRule.on_call(self, eng, st, fr, name, args, node)
    def on_load(self, eng, st, fr, loc, node):
        if self.nodes and loc not in st.env and loc[0] == 'f' and loc[1][0] == 'd':
            n = loc[1][1]
            if n in self.nodes:
                k = self.nodes.index(n)
                if loc[2] == 'data': st.env[loc] = I(self.queue[k])
                if loc[2] == 'next': st.env[loc] = self.nodes[k + 1] if k + 1 < len(self.nodes) else I0
    nn = SRule.nn + ('table',)

def setter_field(p, name):
    f = p.need('milter_server_context_' + name, SC)
    got = set()
    class W(CtxRule):
        def on_store(self, eng, st, fr, loc, val, node):
            if loc[0] == 'f' and val == ('sym', 'param', f.params[1]['n'], 1): got.add(loc[2])
    Engine(p, W(p, SC)).run(f)
    if len(got) != 1: raise AnalysisBroken("%s doesn't set a single field" % name)
    return got.pop()

def run(ctx):
    p = ctx.prog
    E = p.enum
    m = Model(p)
    ctx.explanation = ("Every function which hands a command to a milter is abstractly interpreted for each negotiated step, stop decision, busy or "
        "idle context and write failure; the packet, its macros, the timers, the queued state and the signals on every path are compared with the "
        "protocol's table. The same is done for what happens when each packet was flushed and when each timer expires.")
    delays = {k: setter_field(p, 'set_%s_timeout' % k) for k in ('writing', 'reading', 'end_of_message', 'connection')}
    nopacket = {v: n for v, n in m.states}
    stepv = {n: v for n, v in p.enums.items() if n.startswith('MILTER_STEP_')}
    allsteps = 0
    for n, v in stepv.items():
        if v & (v - 1) == 0: allsteps |= v
    nextf = None
    f = p.need('milter_server_context_quit', SC)
    for st, v in Engine(p, m.rule(R)).run(f):
        for e in events(st, 'queue'):
            if e[1][0] == 'ld' and e[1][1][0] == 'f': nextf = e[1][1][2]
    if nextf is None: raise AnalysisBroken("the queue of flushed states isn't found")
    def role(h): return c18.handler_signal(p, h)
    def timer_ok(arms, st, cx, which):
        k = [e for e in st.mon if e[0] == 'timer-kept']
        return (len(arms) == 1 and len(k) == 1 and k[0][1] == m.timerf and which.replace('_', '-') + '-timeout' in role(arms[0][1])
                and arms[0][2] == ('ld', m.at(cx, delays[which])) and arms[0][3] == cx)
    # sending
    for name, (state, cmd, stop, skip, packet, skipsig) in TABLE.items():
        f = p.need('milter_server_context_' + name, SC)
        ctx.count("sending functions")
        cx = ('sym', 'param', f.params[0]['n'], 0)
        prm = [('sym', 'param', q['n'], n) for n, q in enumerate(f.params)][1:]
        sv = I(E(P + state))
        flag = stepv['MILTER_STEP_' + skip] if skip else 0
        steps = [('none', 0), ('others', allsteps & ~flag)] + ([('own', flag)] if flag else [])
        reached = set()
        mv = ('call', 'macros', I(E(C_ + cmd))) if cmd else None
        keep = (mv, ('call', 'entries', mv), ('call', 'symbols', REQ, I(E(C_ + cmd)))) if cmd else ()
        for label, step in steps + ([('null', 0)] if name in ('connect', 'helo') else []):
          for version in ((4, 3) if name == 'data' else (4,)):
            for busy in (0, 1):
                rule = m.rule(R); rule.step, rule.version = step, version; eng = Engine(p, rule)
                def setup(eng, st):
                    eng.constrain(st, cx, ne=0)
                    o = ('ld', m.option(cx))
                    if label == 'null': eng.constrain(st, o, lo=0, hi=0)
                    else: eng.constrain(st, o, ne=0)
                    st.env[m.timer(cx)] = WAIT
                    eng.constrain(st, WAIT, **({'ne': 0} if busy else {'lo': 0, 'hi': 0})); st.mon = (('keep', WAIT, REQ, ('sym', 'returned', stop, 0)) + keep,)
                    st.env[m.state(cx)] = ('sym', 'old', 'state', 0)
                rs = eng.run(f, {}, setup); ctx.used(eng); ctx.count("cases")
                for st, v in rs:
                    ctx.count("paths")
                    C = lambda x: eng.canon(st, x)
                    V = lambda key, msg: ctx.violation("%s:%s" % (name, key), SC, f.line, "%s (%s steps off%s%s): %s (path %s)" % (
                        f.name, label, ", busy" if busy else "", ", version 3" if version == 3 else "", msg, trace_str(st.trace)))
                    emits = [(e[1], tuple(C(a) for a in e[2])) for e in events(st, 'emit') if e[1] != 'message-processed']
                    writes = events(st, 'write'); arms = events(st, 'arm'); kept = [e for e in st.mon if e[0] == 'queue' and e[2] != I0]
                    states = [C(e[1]) for e in events(st, 'state')]
                    ret = C(v)
                    macro = [(n, e[1]) for n, e in enumerate(st.mon) if e[0] == 'macro']
                    if stop:
                        if not emits or emits[0] != (stop, tuple(C(x) for x in prm)): V("stop-signal", "'%s' isn't asked first with the command's arguments" % stop); continue
                        si = index(st, lambda e: e[0] == 'emit' and e[1] == stop)
                        if name in SELECT and [c for n, c in macro if n < si][-1:] != [I(E(C_ + cmd))]: V("macro-context", "the command's macros aren't selected before '%s'" % stop)
                        t = eng.truth(st, ('sym', 'returned', stop, 0))
                        emits = emits[1:]
                        if t is True:
                            reached.add('stop')
                            if writes or kept: V("stop-write", "a stopped command is sent")
                            if states != [sv] or C(st.env.get(m.status(cx), I0)) != I(E(S + 'STOP')) or emits != [('stopped', ())]: V("stop", "a stopped command isn't reported as stopped in its state")
                            if ret != I1: V("stop-ret", "a stopped command is reported as failed")
                            continue
                        if t is None: V("stop-ignored", "the answer to '%s' has no effect" % stop)
                    off = bool(flag) and (bool(step & flag) or label == 'null') or version == 3
                    if off:
                        reached.add('skip')
                        if writes or kept: V("skip-write", "a command the milter doesn't want is sent")
                        if states != [sv]: V("skip-state", "the command's state isn't entered")
                        if emits != [(skipsig, ())]: V("skip", "it isn't answered with '%s' but %s" % (skipsig, [e[0] for e in emits]))
                        if ret != I1: V("skip-ret", "a skipped command is reported as failed")
                        continue
                    force = name in ('quit', 'abort')
                    failed = index(st, lambda e: e[0] == 'failed') is not None
                    if busy and not force:
                        reached.add('busy')
                        if writes or kept or arms: V("busy", "a command is sent while another one is waited for")
                        if [e[0] for e in emits] != ['error'] or ret != I0: V("busy-error", "a command given while another one is waited for isn't refused with an error")
                        continue
                    if states: V("state", "the state is entered before the packet is flushed")
                    if len(writes) != 1: V("write", "%d packets are written" % len(writes)); continue
                    pieces, sizeok = writes[0][1], writes[0][2]
                    if not sizeok: V("size", "it isn't written with its own size")
                    cp = [e for e in events(st, 'copied')]
                    own = pieces[-1] if pieces else I0
                    # the packet of the command
                    if name == 'body':
                        body = [e for e in events(st, 'append') if e[2] == C(prm[0])]
                        if len(body) != 1 or C(body[0][3]) != C(prm[1]): V("body", "the chunk isn't queued once with its size"); continue
                        bl = body[0][1]
                        okp = own[:3] == ('call', 'packet', 'body') and own[3][0] == 'ld' and own[3][1] == ('f', ('d', bl), 'str') 
                        bi = index(st, lambda e: e[0] == 'append'); wi = index(st, lambda e: e[0] == 'write')
                        if bi > wi: V("body-late", "the chunk is queued after the packet is made")
                        er = events(st, 'erase')
                        if not failed and (len(er) != 1 or er[0][1] != bl or er[0][2] != I0 or er[0][3][:2] != ('call', 'packed')): V("body-rest", "what was packed isn't removed from the rest of the body")
                        if failed and er: V("body-rest", "a chunk which couldn't be sent is dropped")
                    else: okp = own == ('call', 'packet', packet) + tuple(C(x) for x in prm)
                    if not okp: V("packet", "what is written isn't the command's own packet with its arguments")
                    if not any(C(e[1]) == own and e[2] == ('call', 'size') + own[2:] for e in cp) and not sizeok: V("packet-size", "the packet isn't taken with its own size")
                    # macros
                    ex = pieces[:-1]
                    if cmd is None:
                        if ex: V("macros", "macros are sent with a command which has none")
                    else:
                        if len(ex) > 1: V("macros", "macros are sent more than once")
                        hm, req = eng.truth(st, mv), eng.truth(st, REQ)
                        some = eng.truth(st, ('call', 'entries', mv))
                        if ex:
                            e = ex[0]
                            if e[:4] != ('call', 'packet', 'define_macro', I(E(C_ + cmd))): V("macros", "the macros sent aren't those of the command")
                            elif req is False and e[4] != mv: V("macros-all", "the macros sent aren't the command's")
                            elif req is not False and e[4][:2] != ('call', 'table'): V("macros-filter", "macros the milter didn't ask for are sent")
                            elif req is None: V("macros-requests", "the milter's macro requests aren't looked at")
                            elif req:
                                ins = [x for x in events(st, 'insert') if x[1] == e[4]]
                                for x in ins:
                                    if x[2] != mv: V("macros-value", "a macro is sent with another value than its own")
                                if eng.truth(st, ('call', 'symbols', REQ, I(E(C_ + cmd)))) is not True: V("macros-symbols", "another command's requests are used")
                        elif hm is not False and some is not False:
                            if req is not True: V("macros-missing", "the command's macros aren't sent")
                            else:
                                sy = eng.truth(st, ('call', 'symbols', REQ, I(E(C_ + cmd))))
                                tabs = {a for l, a in st.env.items() if a[:2] == ('call', 'table')}
                                empty = [a for a in st.facts if a[:2] == ('call', 'entries') and a[2][:2] == ('call', 'table') and eng.truth(st, a) is False]
                                if sy is not False and not empty: V("macros-missing", "the macros the milter asked for aren't sent")
                        after = [c for n, c in macro]
                        reached.add('macros' if ex else 'plain')
                    if failed:
                        reached.add('failed')
                        if kept: V("failed-queue", "the state of a packet which couldn't be written is queued")
                        if [e[0] for e in emits] != ['error'] or ret != I0: V("failed", "a failed write isn't reported")
                        if not force and C(st.env.get(m.timer(cx), I1)) != I0: V("failed-timer", "the writing timer is left after a failed write")
                        continue
                    reached.add('sent')
                    if emits: V("signal", "%s emitted" % [e[0] for e in emits])
                    if ret != I1: V("ret", "a sent command is reported as failed")
                    if [(e[1], e[2]) for e in kept] != [(('ld', m.at(cx, nextf)), sv)]: V("queue", "its own state isn't queued once for when it is flushed")
                    if force:
                        if arms: V("timer", "a timer is armed")
                    elif not timer_ok(arms, st, cx, 'writing'): V("timer", "the writing timer isn't armed")
                    elif index(st, lambda e: e[0] == 'arm') > index(st, lambda e: e[0] == 'write'): V("timer-late", "the writing timer is armed after the packet is written")
                    if name == 'quit' and C(st.env.get(m.quitted(cx), I0)) != I1: V("quitted", "the context isn't marked as quitted")
                    if name == 'envelope_from' and C(st.env.get(m.processing(cx), I0)) != I1: V("processing", "the message isn't marked as being processed")
                    if name == 'abort' and C(st.env.get(m.processing(cx), I1)) != I0: V("processing", "the message is still marked as being processed")
                    if name == 'negotiate' and C(st.env.get(m.option(cx), I0)) != ('call', 'option-copy', C(prm[0])): V("option", "the offered options aren't kept")
        need = {'sent', 'failed'} | ({'stop'} if stop else set()) | ({'skip'} if skip else set()) | ({'macros', 'plain'} if cmd else set()) | (set() if name in ('quit', 'abort') else {'busy'})
        for r in sorted(need - reached): ctx.violation("%s:never:%s" % (name, r), SC, f.line, "%s is never %s" % (f.name, {'sent': 'sent', 'failed': 'seen to fail', 'stop': 'stopped', 'skip': 'skipped', 'macros': 'sent with its macros', 'plain': 'sent without macros', 'busy': 'refused as busy'}[r]))
    # flushed
    flushed = p.fns.get(vfunc(p, SC, 'flushed')) if isinstance(vfunc(p, SC, 'flushed'), str) else vfunc(p, SC, 'flushed')
    for sv, sn in m.states:
        sname = sn[len(P):]
        flag = stepv.get('MILTER_STEP_NO_REPLY_' + NO_REPLY[sname]) if sname in NO_REPLY else 0
        for label, step in [('all', 0), ('others', allsteps & ~flag)] + ([('none', flag)] if flag else []):
            for second in (None, E(P + 'HELO')):
                rule = m.rule(R); rule.step = step; eng = Engine(p, rule)
                rule.nodes = [('sym', 'node', 'n', k) for k in range(2 if second is not None else 1)]
                rule.queue = [sv, second]
                cx = ('sym', 'param', flushed.params[0]['n'], 0)
                def setup(eng, st):
                    eng.constrain(st, cx, ne=0); eng.constrain(st, ('ld', m.option(cx)), ne=0)
                    for n in rule.nodes: st.facts[n] = (1, INF, frozenset())
                    st.env[m.timer(cx)] = WAIT; st.mon = (('keep', WAIT), ('keep',) + tuple(rule.nodes))
                    st.env[m.at(cx, nextf)] = rule.nodes[0]
                rs = eng.run(flushed, {}, setup); ctx.used(eng); ctx.count("cases")
                for st, v in rs:
                    ctx.count("paths")
                    C = lambda x: eng.canon(st, x)
                    V = lambda key, msg: ctx.violation("flushed:%s:%s" % (sname, key), SC, flushed.line, "%s packet flushed (%s replied): %s (path %s)" % (sname, label, msg, trace_str(st.trace)))
                    emits = [(e[1], tuple(C(a) for a in e[2])) for e in events(st, 'emit') if e[1] != 'message-processed']
                    tr = [e for e in emits if e[0] == 'state-transited']
                    want = [('state-transited', (I(x),)) for x in rule.queue if x is not None]
                    if tr != want: V("transited", "the flushed states aren't told in order")
                    if second is not None: continue
                    states = [C(e[1]) for e in events(st, 'state')]
                    left = C(st.env.get(m.at(cx, nextf), I1))
                    body_rest = events(st, 'write')
                    if left != I0 and not body_rest: V("queue", "the flushed states stay queued")
                    rest = [e[0] for e in emits if e[0] != 'state-transited']
                    if sname == 'INVALID':
                        if rest != ['error']: V("invalid", "no error is raised")
                        continue
                    if rest and not (sname == 'BODY' and body_rest): V("signal", "%s emitted" % rest)
                    rm = stopped(st, m, cx, eng)
                    if rm is None: V("timer", "the writing timer isn't stopped")
                    arms = events(st, 'arm')
                    reply = not (flag and step & flag)
                    if sname == 'END_OF_MESSAGE':
                        ok = states == [I(sv)] or (states == [] and any(x == I1 for l, x in st.env.items() if l[0] == 'f' and l[1] == m.base(cx)))
                        if not ok: V("state", "its state isn't entered")
                        if not timer_ok(arms, st, cx, 'end_of_message'): V("wait", "the end of message timer isn't armed")
                    else:
                        if states != [I(sv)]: V("state", "its state isn't entered once")
                        if sname in ('QUIT', 'ABORT'):
                            if arms: V("wait", "a timer is armed")
                        elif sname == 'BODY' and not reply:
                            if body_rest:
                                if body_rest[0][1][-1][:3] != ('call', 'packet', 'body'): V("rest", "something else than the rest of the body is sent")
                            else:
                                if arms: V("wait", "a timer is armed")
                                if not any(l[0] == 'ld' and l[1][0] == 'f' and l[1][2] == 'len' and c[:2] == (0, 0) for l, c in st.facts.items()): V("rest", "the rest of the body isn't sent")
                        elif reply:
                            if not timer_ok(arms, st, cx, 'reading'): V("wait", "the reading timer isn't armed")
                        elif arms: V("wait", "a reply is waited for which was negotiated away")
                    if bool(events(st, 'shutdown')) != (sname == 'QUIT'): V("shutdown", "the connection is shut down" if sname != 'QUIT' else "the connection isn't shut down")
                    clear = any(e[1] == 'milter_protocol_agent_clear_message_related_macros' for e in events(st, 'call'))
                    if clear != (sname == 'ABORT'): V("reset", "the message's macros are%s cleared" % ("" if clear else "n't"))
                    if sname == 'ABORT' and not events(st, 'truncate'): V("reset-body", "the rest of the body is kept")
                    if sname == 'ENVELOPE_FROM' and C(st.env.get(m.processing(cx), I0)) != I1: V("processing", "the message isn't marked as being processed")
                    if sname == 'ABORT' and C(st.env.get(m.processing(cx), I1)) != I0: V("processing", "the message is still marked as being processed")
    # timers
    seen = {}
    for fn in sorted(p.fns.values(), key=lambda f: f.name):
        if fn.file != SC: continue
        for n, node in fn.callees:
            if n == 'milter_event_loop_add_timeout' and node['a'][2]['k'] == 'fn': seen[node['a'][2]['n']] = node['l']
    roles = {}
    for h in seen:
        f = p.resolve(h, SC)
        if f is None: ctx.violation("timer:" + h, SC, seen[h], "the timer's handler isn't in this file"); continue
        eng = Engine(p, m.rule(R))
        for st, v in eng.run(f):
            ctx.count("paths")
            em = [e[1] for e in events(st, 'emit')]
            if len(em) != 1 or not em[0].endswith('-timeout'): ctx.violation("timer:%s:signal" % h, SC, f.line, "%s doesn't emit one timeout signal, but %s" % (h, em)); continue
            roles.setdefault(em[0], set()).add(h)
            if eng.truth(st, v) is not False: ctx.violation("timer:%s:again" % h, SC, f.line, "%s keeps its timer running" % h)
            if em[0] != 'connection-timeout' and not events(st, 'shutdown'): ctx.violation("timer:%s:shutdown" % h, SC, f.line, "%s doesn't shut the connection down" % h)
    for s in ('connection', 'writing', 'reading', 'end-of-message'):
        if s + '-timeout' not in roles: ctx.violation("timer:%s" % s, SC, 1, "no timer emits '%s-timeout'" % s)
    ctx.floor("sending functions", 13); ctx.floor("cases", 150); ctx.floor("paths", 300)
    ctx.assume("a signal's handlers don't change the context's state themselves before returning")
