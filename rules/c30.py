"""C30: libmilter's API does exactly what the milter API says with a client context."""
from ctxlib import *
LM = "libmilter/libmilter-compatible.c"
SMFIS = {0: 'CONTINUE', 1: 'REJECT', 2: 'DISCARD', 3: 'ACCEPT', 4: 'TEMPORARY_FAILURE', 7: 'NO_REPLY', 8: 'SKIP', 10: 'ALL_OPTIONS'}
SUCCESS, FAILURE = I(0), I(-1)
# signal -> (callback of the description, number of arguments handed on unchanged, or a shape)
CALLBACKS = {'negotiate': 'negotiate', 'connect': 'connect', 'helo': 'helo', 'envelope-from': 'envfrom', 'envelope-recipient': 'envrcpt', 'data': 'data',
             'unknown': 'unknown', 'header': 'header', 'end-of-header': 'eoh', 'body': 'body', 'end-of-message': 'eom', 'abort': 'abort'}
ARGS = {'connect': 2, 'helo': 1, 'data': 0, 'unknown': 1, 'header': 2, 'end-of-header': 0, 'body': 2, 'abort': 0}
# function -> (operation of the client context, its arguments in order)
OPS = {'smfi_addheader': ('add_header', [1, 2]), 'smfi_chgheader': ('change_header', [1, 2, 3]), 'smfi_insheader': ('insert_header', [1, 2, 3]),
       'smfi_chgfrom': ('change_from', [1, 2]), 'smfi_addrcpt': ('add_recipient', [1, 0]), 'smfi_addrcpt_par': ('add_recipient', [1, 2]),
       'smfi_delrcpt': ('delete_recipient', [1]), 'smfi_progress': ('progress', []), 'smfi_replacebody': ('replace_body', [1, 2]),
       'smfi_quarantine': ('quarantine', [1]), 'smfi_setreply': ('set_reply', ['atoi1', 2, 3])}
STAGES = {0: 'CONNECT', 1: 'HELO', 2: 'ENVELOPE_FROM', 3: 'ENVELOPE_RECIPIENT', 4: 'DATA', 5: 'END_OF_MESSAGE', 6: 'END_OF_HEADER'}

class R(CtxRule):
    """events: ('user', callback, args, result), ('op', operation, args, result), ('global', name, value), ('set', field, value), ('hook', ...)"""
    answer = 0
    eom_body = None
    def inline(self, eng, f): return f.file == LM and f.name not in self.stop
    def on_store(self, eng, st, fr, loc, val, node):
        if loc[0] == 'g': self.ev(st, 'global', loc[2], eng.canon(st, val))
        elif loc[0] == 'f' and loc[1][0] == 'd': self.ev(st, 'set', loc, eng.canon(st, val))
    def on_call(self, eng, st, fr, name, args, node):
        C = lambda vs: tuple(eng.canon(st, x) for x in vs)
        if name.startswith('*xxfi_'):
            a = list(C(args))
            # an array of strings is recorded by its elements
            for k, x in enumerate(args):
                if x[0] == '&' and x[1][0] == 'v':
                    base = x[1]
                    el = [(l[2][1], v) for l, v in st.env.items() if l[0] == 'x' and l[1] == base and l[2][0] == 'i']
                    if el: a[k] = ('array',) + tuple(v for n, v in sorted(el))
                    else:
                        a[k] = ('out', x[1][3] if len(x[1]) > 3 else '?')
                        v = ('sym', 'answered', str(k), 0); st.env[base] = v
            r = self.answer if self.eom_body is None or name != '*xxfi_body' else self.eom_body
            self.ev(st, 'user', name[6:], tuple(a))
            return [(st, I(r))]
        m = re.match(r'milter_client_context_(\w+)$', name)
        if m and not re.match(r'(get|is)_', m.group(1)):
            f = self.p.resolve(name, CC)
            errp = args[-1] if f is not None and f.params[-1]['n'] == 'error' else None
            a = C(args[:-1] if errp is not None else args)
            s, q = st.copy(), st.copy()
            self.ev(st, 'op', m.group(1), a, 1); self.ev(s, 'op', m.group(1), a, 0)
            if errp is not None and errp[0] == '&':
                v = eng.fresh(s, fr, ('error', node['l']), 'error'); s.env[errp[1]] = v; eng.constrain(s, v, ne=0)
            return [(st, I1), (s, I0)]
        if name in ('atoi', 'strtol', 'strtoul', 'g_ascii_strtoull'): return [(st, ('call', 'atoi', eng.canon(st, args[0])))]
        if name in ('milter_option_get_action', 'milter_option_get_step'): return [(st, ('call', name[14:], args[0]))]
        if name in ('milter_option_set_action', 'milter_option_set_step'): self.ev(st, 'option', name[18:], args[0], eng.canon(st, args[1])); return [(st, I0)]
        if name == 'milter_protocol_agent_get_macro': return [(st, ('call', 'macro', C(args)))]
        if name.startswith('milter_macros_requests_set_symbols'): self.ev(st, 'requests', args[0], eng.canon(st, args[1]), eng.canon(st, args[2])); return [(st, I0)]
        if name in ('g_strsplit', 'g_strsplit_set'): return [(st, ('call', 'split', args[0]))]
        if name.startswith('g_signal_handlers_disconnect'): self.ev(st, 'unhook', args[-2], args[-1]); return [(st, I1)]
        if name == 'g_signal_connect_data':
            self.ev(st, 'hook', norm(args[1][1]) if args[1][0] == 's' else '?', args[0], args[2], args[3]); return [(st, I1)]
        if name == 'milter_connection_listen':
            self.ev(st, 'listen', C(args[:-1]))
            s = st.copy()
            v = eng.fresh(s, fr, ('error', node['l']), 'error'); 
            if args[-1][0] == '&': s.env[args[-1][1]] = v; eng.constrain(s, v, ne=0)
            return [(st, ('call', 'channel')), (s, I0)]
        if name == 'milter_connection_parse_spec':
            s = st.copy()
            self.ev(st, 'parsed', eng.canon(st, args[0]), 1); self.ev(s, 'parsed', eng.canon(st, args[0]), 0)
            if args[-1][0] == '&': v = eng.fresh(s, fr, ('error', node['l']), 'error'); s.env[args[-1][1]] = v; eng.constrain(s, v, ne=0)
            return [(st, I1), (s, I0)]
        if name == 'milter_client_new': return [(st, ('call', 'a-client'))]
        if name == 'milter_client_run':
            s = st.copy(); self.ev(st, 'run', 1); self.ev(s, 'run', 0)
            if args[-1][0] == '&': v = eng.fresh(s, fr, ('error', node['l']), 'error'); s.env[args[-1][1]] = v; eng.constrain(s, v, ne=0)
            return [(st, I1), (s, I0)]
        m = re.match(r'milter_client_(set_\w+|shutdown)$', name)
        if m: self.ev(st, 'client', m.group(1), C(args)); return [(st, I1)]
        if name in ('g_strdup', 'g_strdup_inline', 'g_strdup_printf'):
            if args[0] == I0: return [(st, I0)]
            return [(st, ('call', 'text') + C(args))]
        if name in ('g_getenv',): return [(st, I0)]
        if name in ('g_error_free', 'g_free', 'g_strfreev', 'g_io_channel_unref', 'milter_init', 'milter_quit'): return [(st, I0)]
        if name == 'g_object_unref': self.ev(st, 'unref', args[0]); return [(st, I0)]
        if name == 'milter_logger_set_target_level': self.ev(st, 'level', args[1]); return [(st, I0)]
        return CtxRule.on_call(self, eng, st, fr, name, args, node)
    nn = CtxRule.nn + ('channel', 'a-client', 'text', 'split')

def run(ctx):
    p = ctx.prog
    E = p.enum
    S = "MILTER_STATUS_"
    ctx.explanation = ("Each handler libmilter connects to a client context is abstractly interpreted for every value the program's callback can return, "
        "and each smfi_* function for success and failure of the client context's operation; calls, arguments and results are compared with the milter API.")
    rule0 = R(p, LM)
    # ---- the handlers which get connected when a context is attached: signal -> (handler, data)
    newf = p.need('smfi_context_new', LM)
    attach = None
    conns = connections(p, LM)
    def field_loc(fn_name, out_field):
        pass
    hooks = {}
    for f in p.fns.values():
        if f.file != LM: continue
        for sig, hs in connections(p, LM).items():
            for h, where, line in hs: hooks.setdefault(sig, p.resolve(h, LM))
    for sig, cb in list(CALLBACKS.items()) + [('finished', 'close')]:
        h = hooks.get(sig)
        if h is None: raise AnalysisBroken("libmilter doesn't listen to %s" % sig)
        prm = [('sym', 'param', q['n'], n) for n, q in enumerate(h.params)]
        if len(prm) < 2: ctx.violation("%s:handler" % sig, LM, h.line, "%s takes too few arguments" % h.name); continue
        me, got = prm[-1], prm[1:-1]
        cases = [(a, None, st8) for a in list(SMFIS) + [99] for st8 in ([None] if sig != 'abort' else range(0, len(enum_values(p, 'MILTER_CLIENT_CONTEXT_STATE_'))))]
        if sig == 'end-of-message': cases = [(a, b, None) for a in (0, 1, 2, 3, 4, 7) for b in (0, 1, 2, 3, 4, 7, 8)]
        for ans, body, state in cases:
            if state is not None and ans not in (0, 1): continue
            rule = R(p, LM); rule.answer, rule.eom_body = ans, body
            eng = Engine(p, rule)
            kw = {h.params[1]['n']: I(state)} if state is not None else {}
            rs = eng.run(h, kw, lambda eng, st: [eng.constrain(st, x, ne=0) for x in [me, prm[0]] + (got if sig in ('negotiate',) else [])])
            ctx.used(eng); ctx.count("callback runs")
            for st, v in rs:
                ctx.count("paths")
                V = lambda key, msg: ctx.violation("%s:%s" % (sig, key), LM, h.line, "%s (the program answers %s): %s (path %s)" % (sig, SMFIS.get(ans, ans), msg, trace_str(st.trace)))
                users = events(st, 'user')
                want_status = I(E(S + SMFIS[ans])) if ans in SMFIS else I(E(S + 'DEFAULT'))
                if sig == 'finished':
                    if [u for u in users if u[1] != 'close'] or len(users) > 1 or any(u[2] != (me,) for u in users): V("call", "xxfi_close isn't called as it should")
                    if not users and not unset(eng, st, cb): V("call", "xxfi_close isn't called")
                    if events(st, 'unref') != [('unref', me)]: V("free", "the context isn't released once")
                    continue
                if sig == 'end-of-message':
                    has_body = [u for u in users if u[1] == 'body']
                    if has_body:
                        if len(has_body) > 1 or users[0] is not has_body[0] or has_body[0][2] != (me, got[0], got[1]): V("body", "the last chunk isn't handed to xxfi_body once, before xxfi_eom")
                        if body in (1, 2, 3, 4):
                            if len(users) > 1: V("call", "xxfi_eom is called although xxfi_body decided")
                            if v != I(E(S + SMFIS[body])): V("status", "xxfi_body's %s is answered with %s" % (SMFIS[body], v))
                            continue
                    elif not unset(eng, st, 'body'):
                        c, z = st.facts.get(got[0]), st.facts.get(got[1])
                        none = eng.truth(st, got[0]) is False or eng.truth(st, got[1]) is False or (z is not None and z[1] <= 0)
                        if not none: V("body", "the last chunk isn't handed to xxfi_body")
                    users = [u for u in users if u[1] != 'body']
                if not users:
                    skip = unset(eng, st, cb)
                    if sig == 'abort' and not in_message(p, state): skip = True
                    if not skip: V("call", "xxfi_%s isn't called" % cb)
                    if v != I(E(S + 'DEFAULT')): V("status", "without a callback the answer is %s" % (v,))
                    continue
                if sig == 'abort' and not in_message(p, state): V("call", "xxfi_abort is called outside a message"); continue
                if len(users) != 1 or users[0][1] != cb: V("call", "%s is called" % ", ".join("xxfi_" + u[1] for u in users)); continue
                a = users[0][2]
                if a[0] != me: V("context", "xxfi_%s doesn't get the context" % cb)
                if sig in ('envelope-from', 'envelope-recipient'):
                    if a[1:] != (('array', got[0], I0),): V("args", "xxfi_%s gets %s" % (cb, a[1:]))
                elif sig in ARGS:
                    if a[1:] != tuple(got[:ARGS[sig]]): V("args", "xxfi_%s doesn't get what was received" % cb)
                elif sig == 'negotiate':
                    opt = got[0]
                    if a[1:3] != (('call', 'get_action', opt), ('call', 'get_step', opt)) or len(a) != 9 or any(x[0] != 'out' for x in a[5:]) or len(set(a[5:])) != 4:
                        V("args", "xxfi_negotiate doesn't get what was offered and four places for its answer")
                    sets = {e[1]: (e[2], e[3]) for e in events(st, 'option')}
                    if ans == 0:
                        if sets != {'action': (opt, ('sym', 'answered', '5', 0)), 'step': (opt, ('sym', 'answered', '6', 0))}: V("option", "the options chosen by the program aren't taken (%s)" % (sets,))
                    elif sets: V("option", "options are changed although the program doesn't choose any")
                if v != want_status: V("status", "it is answered with %s" % (v,))
        ctx.count("callbacks")
    # ---- smfi_* functions
    for fn, (op, order) in OPS.items():
        f = p.need(fn, LM)
        prm = [('sym', 'param', q['n'], n) for n, q in enumerate(f.params)]
        eng = Engine(p, R(p, LM))
        rs = eng.run(f, None, lambda eng, st: eng.constrain(st, prm[0], ne=0))
        ctx.used(eng); ctx.count("operations")
        done = 0
        for st, v in rs:
            ctx.count("paths")
            V = lambda key, msg: ctx.violation("%s:%s" % (fn, key), LM, f.line, "%s: %s (path %s)" % (fn, msg, trace_str(st.trace)))
            ops = events(st, 'op')
            if not ops:
                cc = [a for a, c in st.facts.items() if a[0] == 'ld' and a[1][0] == 'f' and c[:2] == (0, 0)]
                if not cc: V("call", "the operation isn't done")
                if v != FAILURE: V("result", "%s is returned though nothing is done" % (v,))
                continue
            done += 1
            want = tuple({0: I0, 'atoi1': ('call', 'atoi', prm[1])}.get(k, prm[k] if isinstance(k, int) and k < len(prm) else None) for k in order)
            if len(ops) != 1 or ops[0][1] != op: V("call", "%s is done" % ", ".join(o[1] for o in ops)); continue
            if ops[0][2][1:] != want: V("args", "the arguments handed on aren't those given")
            if not (ops[0][2][0][0] == 'ld' and ops[0][2][0][1][1] == ('d', ('priv', prm[0], 'smficontext'))): V("context", "another context is used (%s)" % (ops[0][2][0],))
            if v != (SUCCESS if ops[0][3] else FAILURE): V("result", "%s is returned when the operation %s" % (v, "succeeds" if ops[0][3] else "fails"))
        if not done: ctx.violation("%s:none" % fn, LM, f.line, "%s never does its operation" % fn)
    statuses(ctx, p)
    reply_lines(ctx, p)
    misc(ctx, p)
    symlist(ctx, p)
    for k, n in (("callbacks", 13), ("operations", 11), ("callback runs", 150), ("paths", 200)): ctx.floor(k, n)

def unset(eng, st, cb):
    """the path knows that the program has no such callback"""
    return any(a[0] == 'ld' and a[1][0] == 'f' and a[1][2] == 'xxfi_' + cb and c[:2] == (0, 0) for a, c in st.facts.items())
def in_message(p, state):
    n = {v: n for v, n in enum_values(p, 'MILTER_CLIENT_CONTEXT_STATE_')}.get(state)
    lo, hi = p.enum('MILTER_CLIENT_CONTEXT_STATE_ENVELOPE_FROM'), p.enum('MILTER_CLIENT_CONTEXT_STATE_END_OF_MESSAGE')
    return lo <= state < hi

def statuses(ctx, p):
    E, S = p.enum, "MILTER_STATUS_"
    for fn, table in (('libmilter_compatible_convert_status_to', {a: E(S + n) for a, n in SMFIS.items()}),
                      ('libmilter_compatible_convert_status_from', {E(S + n): a for a, n in SMFIS.items()})):
        f = p.need(fn, LM)
        for a, want in table.items():
            eng = Engine(p, R(p, LM))
            for st, v in eng.run(f, {f.params[0]['n']: I(a)}):
                ctx.count("status conversions")
                if v != I(want): ctx.violation("%s:%s" % (fn, a), LM, f.line, "%s converts %d to %s instead of %d" % (fn, a, v, want))
            ctx.used(eng)

class RL(R):
    """lines of smfi_setmlreply: every line is at most 980 bytes, has no CR, and they are joined by one newline each"""
    def on_call(self, eng, st, fr, name, args, node):
        base = name.replace('_inline', '')
        if base == 'strlen': return [(st, ('call', 'strlen', eng.canon(st, args[0])))]
        if base in ('strchr', 'g_utf8_strchr', 'memchr'): 
            return [(st, ('call', 'find', eng.canon(st, args[0]), args[1]))]
        if base in ('g_string_append', 'g_string_append_c', 'g_string_append_len', 'g_string_append_unichar', 'g_string_append_printf'):
            x = args[1]
            kind = 'newline' if x in (I(10), ('s', '\n')) else 'line'
            if kind == 'line':
                c = st.facts.get(('call', 'strlen', eng.canon(st, x)))
                if c is None or c[1] > 980: self.ev(st, 'bad', 'a line whose length isn\'t known to be at most 980 is taken')
                if eng.truth(st, ('call', 'find', eng.canon(st, x), I(13))) is not False: self.ev(st, 'bad', 'a line which may hold a carriage return is taken')
            last = next((e[1] for e in reversed(st.mon) if e[0] == 'last'), None)
            if kind == 'line' and last == 'line': self.ev(st, 'bad', 'two lines are joined without a newline')
            if kind == 'newline' and last == 'newline': self.ev(st, 'bad', 'an empty line is put in')
            st.mon = tuple(e for e in st.mon if e[0] != 'last') + (('last', kind),)
            return [(st, args[0])]
        if name == 'smfi_setreply' or name == 'milter_client_context_set_reply':
            last = next((e[1] for e in reversed(st.mon) if e[0] == 'last'), None)
            if last == 'newline': self.ev(st, 'bad', 'the text ends with a newline')
        return R.on_call(self, eng, st, fr, name, args, node)

def reply_lines(ctx, p):
    f = p.need('smfi_setmlreply', LM)
    prm = [('sym', 'param', q['n'], n) for n, q in enumerate(f.params)]
    eng = Engine(p, RL(p, LM))
    rs = eng.run(f, None, lambda eng, st: eng.constrain(st, prm[0], ne=0))
    ctx.used(eng)
    done = 0
    for st, v in rs:
        ctx.count("paths"); ctx.count("multi-line reply paths")
        V = lambda key, msg: ctx.violation("smfi_setmlreply:%s" % key, LM, f.line, "smfi_setmlreply: %s (path %s)" % (msg, trace_str(st.trace)))
        for e in events(st, 'bad'): V("line", e[1])
        ops = events(st, 'op')
        if ops:
            done += 1
            if len(ops) != 1 or ops[0][1] != 'set_reply' or ops[0][2][1:3] != (('call', 'atoi', prm[1]), prm[2]): V("call", "the reply isn't set with the given codes")
            elif v != (SUCCESS if ops[0][3] else FAILURE): V("result", "%s is returned" % (v,))
    if not done: ctx.violation("smfi_setmlreply:none", LM, f.line, "smfi_setmlreply never sets a reply")

def misc(ctx, p):
    G = lambda n: ('g', LM, n)
    def runf(name, setup=None, args=None):
        f = p.need(name, LM)
        prm = [('sym', 'param', q['n'], n) for n, q in enumerate(f.params)]
        rule = R(p, LM)
        eng = Engine(p, rule)
        rs = eng.run(f, args, lambda eng, st: [eng.constrain(st, prm[0], ne=0)] if setup == 'nn' else setup(eng, st, prm) if setup else None)
        ctx.used(eng); ctx.count("functions of the library")
        def V(key, st, msg): ctx.violation("%s:%s" % (name, key), LM, f.line, "%s: %s (path %s)" % (name, msg, trace_str(st.trace)))
        return eng, prm, rs, V
    # settings: the global each one keeps is what the client is run with
    kept = {}
    for name in ('smfi_settimeout', 'smfi_setbacklog', 'smfi_setconn'):
        eng, prm, rs, V = runf(name)
        for st, v in rs:
            ctx.count("paths")
            if v == FAILURE:
                if [e for e in events(st, 'global') if e[1] in kept.values() or e[1] not in ('initialized',)]: V("keep", st, "a refused value is kept")
                if name == 'smfi_settimeout': V("refuse", st, "a timeout is refused")
                if name == 'smfi_setbacklog' and st.facts.get(prm[0], (0, 0))[1] > 0: V("refuse", st, "a backlog which isn't known to be wrong is refused")
                if name == 'smfi_setconn' and not [e for e in events(st, 'parsed') if e[2] == 0] and eng.truth(st, prm[0]) is not False: V("refuse", st, "a connection is refused though it could be parsed")
                continue
            if v != SUCCESS: V("result", st, "it returns %s" % (v,)); continue
            gs = [e for e in events(st, 'global') if e[1] != 'initialized']
            if len(gs) != 1: V("keep", st, "the value isn't kept"); continue
            kept[name] = gs[0][1]
            if name == 'smfi_setconn':
                ps = events(st, 'parsed')
                texts = (('call', 'text', prm[0]), ('call', 'text', ('s', 'unix:%s'), prm[0]))
                if len(ps) != 1 or ps[0][2] != 1 or ps[0][1] != gs[0][2]: V("parse", st, "a connection is kept which wasn't parsed")
                if gs[0][2] not in texts: V("keep", st, "something else than the given connection is kept")
                colon = [c for a, c in st.facts.items() if False]
            elif gs[0][2] != prm[0]: V("keep", st, "something else than the given value is kept")
            if name == 'smfi_setbacklog' and not st.facts.get(prm[0], (-1, 0))[0] > 0: V("range", st, "a backlog which isn't positive is kept")
    eng, prm, rs, V = runf('smfi_opensocket')
    chan = None
    for st, v in rs:
        ctx.count("paths")
        ls = events(st, 'listen')
        if not ls:
            if v != FAILURE: V("result", st, "it succeeds without listening")
            continue
        a = ls[0][1]
        if a[0] != ('ld', G(kept.get('smfi_setconn'))) or a[1] != ('ld', G(kept.get('smfi_setbacklog'))) or a[4] != prm[0]: V("listen", st, "it doesn't listen with what was set and asked for")
        gs = [e for e in events(st, 'global') if e[2] == ('call', 'channel')]
        err = v == FAILURE
        if err == bool(gs): V("result", st, "it returns %s %s the channel" % (v, "keeping" if gs else "without keeping"))
        if gs: chan = gs[0][1]
    eng, prm, rs, V = runf('smfi_main')
    for st, v in rs:
        ctx.count("paths")
        n = index(st, lambda e: e[0] == 'run')
        if n is None: V("run", st, "no client is run"); continue
        cl = ('call', 'a-client')
        got = {e[1]: e[2] for e in st.mon[:n] if e[0] == 'client'}
        for setter, src in (('set_connection_spec', kept.get('smfi_setconn')), ('set_listen_backlog', kept.get('smfi_setbacklog')), ('set_timeout', kept.get('smfi_settimeout')), ('set_listen_channel', chan)):
            if setter not in got or got[setter][:2] != (cl, ('ld', G(src))): V(setter, st, "the client isn't run with what was set (%s)" % setter)
        if not any(e[0] == 'hook' and e[1] == 'connection-established' and e[2] == cl for e in st.mon[:n]): V("hook", st, "new connections aren't listened to")
        if (v == SUCCESS) != (st.mon[n][1] == 1) or v not in (SUCCESS, FAILURE): V("result", st, "%s is returned when running %s" % (v, "succeeds" if st.mon[n][1] else "fails"))
    eng, prm, rs, V = runf('smfi_setpriv', 'nn')
    stored = set()
    for st, v in rs:
        ctx.count("paths")
        s = [e for e in events(st, 'set') if e[2] == prm[1]]
        if len(s) != 1 or v != SUCCESS: V("keep", st, "the data aren't kept")
        else: stored.add(subst_any(s[0][1], prm[0], 'me'))
    eng, prm, rs, V = runf('smfi_getpriv', 'nn')
    for st, v in rs:
        ctx.count("paths")
        if v[0] != 'ld' or subst_any(v[1], prm[0], 'me') not in stored or len(stored) != 1: V("read", st, "it doesn't return what smfi_setpriv kept")
    eng, prm, rs, V = runf('smfi_getsymval', 'nn')
    for st, v in rs:
        ctx.count("paths")
        ok = v == I0 and any(a[0] == 'ld' and a[1][0] == 'f' and c[:2] == (0, 0) for a, c in st.facts.items())
        if not ok and not (v[:2] == ('call', 'macro') and v[2][1] == prm[1] and v[2][0][0] == 'ld'): V("read", st, "it doesn't return the macro asked for (%s)" % (v,))
    eng, prm, rs, V = runf('smfi_stop')
    for st, v in rs:
        ctx.count("paths")
        if v != SUCCESS: V("result", st, "it returns %s" % (v,))
        sh = [e for e in events(st, 'client') if e[1] == 'shutdown']
        none = any(a == ('ld', G('client')) and c[:2] == (0, 0) for a, c in st.facts.items()) or any(a[0] == 'ld' and a[1][0] == 'g' and c[:2] == (0, 0) and 'initialized' not in a[1] for a, c in st.facts.items())
        if not sh and not none: V("stop", st, "a running client isn't shut down")

def symlist(ctx, p):
    """macros asked for while negotiating go to the command of their stage in the answer to this negotiation"""
    f = p.need('smfi_setsymlist', LM)
    prm = [('sym', 'param', q['n'], n) for n, q in enumerate(f.params)]
    for stage in list(STAGES) + [7, -1]:
        eng = Engine(p, R(p, LM))
        rs = eng.run(f, {f.params[1]['n']: I(stage)}, lambda eng, st: [eng.constrain(st, prm[0], ne=0), eng.constrain(st, prm[2], ne=0)])
        ctx.used(eng)
        did = 0
        for st, v in rs:
            ctx.count("paths"); ctx.count("macro list paths")
            V = lambda key, msg: ctx.violation("smfi_setsymlist:%s" % key, LM, f.line, "smfi_setsymlist for stage %d: %s (path %s)" % (stage, msg, trace_str(st.trace)))
            rq = events(st, 'requests')
            if v == SUCCESS:
                did += 1
                if stage not in STAGES: V("stage", "a stage which doesn't exist is accepted"); continue
                if len(rq) != 1 or rq[0][2] != I(p.enum('MILTER_COMMAND_' + STAGES[stage])): V("command", "the macros aren't asked for with %s" % STAGES[stage])
                elif rq[0][3][:2] != ('call', 'split') or rq[0][3][2] != prm[2]: V("macros", "other macros are asked for")
                elif rq[0][1][0] != 'ld' or rq[0][1][1][0] != 'f': V("requests", "the macros aren't added to the running negotiation's requests")
                else: ctx_requests.add(subst_any(rq[0][1][1], prm[0], 'me'))
            elif v != FAILURE: V("result", "%s is returned" % (v,))
            elif rq: V("result", "it fails although the macros are asked for")
        if stage in STAGES and not did: ctx.violation("smfi_setsymlist:none:%d" % stage, LM, f.line, "smfi_setsymlist never accepts stage %d" % stage)
    # the requests used are those of the negotiation while the program's callback runs
    h = None
    for sig, hs in connections(p, LM).items():
        if sig == 'negotiate': h = p.resolve(hs[0][0], LM)
    if h is None or len(ctx_requests) != 1: return
    loc = next(iter(ctx_requests))
    prm = [('sym', 'param', q['n'], n) for n, q in enumerate(h.params)]
    class RN(R):
        def on_call(self, eng, st, fr, name, args, node):
            if name == '*xxfi_negotiate': self.ev(st, 'during', eng.canon(st, st.env.get(subst_any(loc, 'me', prm[-1]), ('?',))))
            return R.on_call(self, eng, st, fr, name, args, node)
    eng = Engine(p, RN(p, LM))
    for st, v in eng.run(h, None, lambda eng, st: [eng.constrain(st, x, ne=0) for x in prm]):
        ctx.count("paths")
        for e in events(st, 'during'):
            if len(prm) < 4 or e[1] != prm[2]: ctx.violation("smfi_setsymlist:negotiation", LM, h.line, "while xxfi_negotiate runs, smfi_setsymlist doesn't add to the macro requests of this negotiation")
    ctx.used(eng)
ctx_requests = set()
