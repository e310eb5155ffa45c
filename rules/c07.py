"""C07: modifications are accepted only at the end of the message and when negotiated, and reach the MTA whole, once and in order."""
from ctxlib import *
import c16
P, A = "MILTER_CLIENT_CONTEXT_STATE_", "MILTER_ACTION_"
# function -> (action flag, packet kind, order of the packet's arguments, arguments that mustn't be NULL, ... mustn't be empty)
MUT = {'add_header': ('ADD_HEADERS', 'add_header', 'name value', 'name value', ''),
       'insert_header': ('ADD_HEADERS', 'insert_header', 'index name value', 'name value', ''),
       'change_header': ('CHANGE_HEADERS', 'change_header', 'name index value', 'name', ''),
       'delete_header': ('CHANGE_HEADERS', 'delete_header', 'name index', 'name', ''),
       'change_from': ('CHANGE_ENVELOPE_FROM', 'change_from', 'from parameters', 'from', 'from'),
       'add_recipient': ('ADD_ENVELOPE_RECIPIENT', 'add_recipient', 'recipient parameters', 'recipient', 'recipient'),
       'delete_recipient': ('DELETE_ENVELOPE_RECIPIENT', 'delete_recipient', 'recipient', 'recipient', 'recipient'),
       'replace_body': ('CHANGE_BODY', 'replace_body', 'body body_size', '', '')}
ARGS = {'add_header': 'name value', 'insert_header': 'index name value', 'change_header': 'name index value', 'delete_header': 'name index',
        'change_from': 'from parameters', 'add_recipient': 'recipient parameters', 'delete_recipient': 'recipient', 'replace_body': 'body body_size'}
DONE = ('sym', 'sent', 'body', 0)
class R(CtxRule):
    flags = 0
    empty = ()
    body = None
    def __init__(self, *a, **k):
        CtxRule.__init__(self, *a, **k)
        self.bad = []
    def on_store(self, eng, st, fr, loc, val, node):
        if loc[0] == 'f' and loc[2] == self.flagf: self.ev(st, 'buffering', val)
        if val[0] == 'sym' and val[1] == 'timer' and loc[0] == 'f': self.ev(st, 'timer-kept')
    def on_load(self, eng, st, fr, loc, node):
        if loc[0] == 'f' and loc[2] == 'flush' and loc not in st.env:
            st.env[loc] = v = ('sym', 'slot', 'flush', 0); st.facts[v] = (1, INF, frozenset())
    def replace(self, eng, st, fr, args, node):
        """one packet of a new body: what is packed is the rest, the packed size is between 0 and it"""
        pend = next((e for e in st.mon if e[0] == 'pending'), None)
        if pend is not None:
            self.bad.append((node['l'], "a packet of the new body is made but not sent")); self.sent_piece(eng, st, ('call', 'packet', 'replace_body', pend[1]))
        done = next((e for e in st.mon if e[0] == "done"), ("done", I0))[1]
        b, n = self.body
        if linsum((1, args[3]), (-1, b), (-1, done)): self.bad.append((node['l'], "a packet of the new body doesn't start where the previous one ended"))
        if linsum((1, args[4]), (-1, n), (1, done)): self.bad.append((node['l'], "a packet of the new body isn't given the rest of it"))
        k = eng.fresh(st, fr, ('packed', node['l']), 'packed')
        eng.constrain(st, k, lo=0)
        self.set_out(eng, st, fr, args[5], k)
        v = ('call', 'packet', 'replace_body', done)
        self.set_out(eng, st, fr, args[1], v); self.set_out(eng, st, fr, args[2], ('call', 'size') + v[2:])
        st.mon = tuple(e for e in st.mon if e[0] not in ('done', 'pending')) + (('pending', done, k),)
        return [(st, I0)]
    def sent_piece(self, eng, st, v):
        pend = next((e for e in st.mon if e[0] == 'pending'), None)
        if pend is None or v != ('call', 'packet', 'replace_body', pend[1]): self.bad.append((0, "something else than the packet of the new body is sent, or it is sent twice")); return
        st.mon = tuple(e for e in st.mon if e[0] not in ('done', 'pending')) + (('done', eng.mkop(st, '+', pend[1], pend[2])),)
    def at_loophead(self, eng, st, fr, b):
        pend = next((e for e in st.mon if e[0] == 'pending'), None)
        if pend is not None and fr.parent is None:
            self.bad.append((0, "a packet of the new body is made but not sent")); self.sent_piece(eng, st, ('call', 'packet', 'replace_body', pend[1]))
        e = next((e for e in st.mon if e[0] == 'done'), None)
        if self.body is None or e is None or e[1] in (I0, DONE) or fr.parent is not None: return
        d = dict(lin(eng.canon(st, e[1])))
        packed = {a for a in d if a is not None and a != DONE}
        for l, v in list(st.env.items()):
            if l[0] != 'v' or l[1] != fr.id: continue
            lv = dict(lin(eng.canon(st, v)))
            if not packed & set(lv) and DONE not in lv: continue
            for s in (1, -1):
                x = {a: lv.get(a, 0) - s * d.get(a, 0) for a in set(lv) | set(d)}
                x = {a: c for a, c in x.items() if c}
                if not packed & set(x) and DONE not in x:
                    st.env[l] = unlin(x, DONE, s)
        st.mon = tuple(('done', DONE) if e[0] == 'done' else e for e in st.mon)
        eng.constrain(st, DONE, lo=0)
    def on_call(self, eng, st, fr, name, args, node):
        base = name.replace('_inline', '')
        if name == 'milter_option_get_action': return [(st, I(self.flags))]
        if name == 'milter_reply_encoder_encode_replace_body' and self.body: return self.replace(eng, st, fr, args, node)
        if name in ('strlen', '__builtin_strlen'):
            if args[0] in self.empty: return [(st, I0)]
            v = eng.fresh(st, fr, ('strlen', node['l']), 'strlen'); eng.constrain(st, v, lo=1); return [(st, v)]
        if base.startswith('g_string_append') and self.body and args[0][0] == 'ld': self.sent_piece(eng, st, args[1])
        if base in ('g_string_append', 'g_string_append_len') and args[0][0] == 'ld':
            size = args[2] if len(args) > 2 else None
            if args[1][:2] == ('call', 'packet') and (size is None or eng.canon(st, size) != ('call', 'size') + args[1][2:]): self.bad.append((node['l'], "a packet isn't buffered with its own size"))
        if name.startswith('*'):
            self.ev(st, 'chain', name[1:], tuple(args))
            return self.fails(eng, st, fr, node, args[1] if len(args) > 1 else None, 'chain')
        return CtxRule.on_call(self, eng, st, fr, name, args, node)

def unlin(x, sym, s):
    v = None
    c = x.pop(None, 0)
    for a, k in list(x.items()) + [(sym, s)]:
        for _ in range(abs(k)):
            if v is None: v = a if k > 0 else ('op', '-', I0, a)
            else: v = ('op', '+' if k > 0 else '-', v, a)
    # put a positive atom first
    if v is not None and v[0] == 'op' and v[1] == '-' and v[2] == I0: v = ('op', '-', I(c), v[3]); c = 0
    return v if not c else ('op', '+', v, I(c))

def run(ctx):
    p = ctx.prog
    E = p.enum
    ctx.explanation = ("Every public modification function of the client context is abstractly interpreted for every state, for the action flag "
        "granted or not, and with each argument absent, empty or given: it must buffer exactly its packet or refuse with an error. The flush of "
        "the buffer is analysed the same way: all of it is written once, before the reply, and it is emptied.")
    statef, stateloc = getter_loc(p, 'milter_client_context_get_state', CC)
    _, optloc = getter_loc(p, 'milter_client_context_get_option', CC)
    _, sizeloc = getter_loc(p, 'milter_client_context_get_packet_buffer_size', CC)
    states = enum_values(p, P)
    eom = E(P + 'END_OF_MESSAGE')
    allf = 0
    for v, n in enum_values(p, A): allf |= v if n.count('_') else 0
    buf = flagf = None
    # the buffer: the string a successful add_header appends to; the flag: the private boolean set at the same time
    for f in MUT:
        fn = p.need('milter_client_context_' + f, CC)
    f = p.need('milter_client_context_add_header', CC)
    class W(R):
        flagf = None
        stored = set()
        def on_store(self, eng, st, fr, loc, val, node):
            if loc[0] == 'f' and loc[1][0] == 'd' and loc[1][1][0] == 'priv' and val == I1: W.stored.add(loc[2])
    rule = W(p, CC); rule.flags = allf
    cx = ('sym', 'param', f.params[0]['n'], 0)
    def ok(eng, st, cx=cx, f=f):
        eng.constrain(st, cx, ne=0); st.env[stateloc(cx)] = I(eom); eng.constrain(st, ('ld', optloc(cx)), ne=0)
        for n in (1, 2): eng.constrain(st, ('sym', 'param', f.params[n]['n'], n), ne=0)
    bufs = set()
    for st, v in Engine(p, rule).run(f, {}, ok):
        for e in events(st, 'append', 'prepend'):
            if e[1][0] == 'ld' and e[1][1][0] == 'f': bufs.add(subst_any(e[1][1], cx, 'OBJ'))
    if len(bufs) != 1: raise AnalysisBroken("the buffer of the modifications isn't found")
    bl = bufs.pop(); bufloc = lambda obj: subst_any(bl, 'OBJ', obj)
    flush = vfunc_of(p)
    # the flag tested by flush
    flagf = next((x for x in sorted(W.stored) if x in flush.fields_read or True), None)
    for name, (flag, kind, order, notnull, notempty) in MUT.items():
        f = p.need('milter_client_context_' + name, CC)
        ctx.count("modification functions")
        need = E(A + flag)
        names = ARGS[name].split()
        prm = {a: ('sym', 'param', f.params[n + 1]['n'], n + 1) for n, a in enumerate(names)}
        cx = ('sym', 'param', f.params[0]['n'], 0)
        ptrs = [a for a in names if a not in ('index', 'body_size', 'body')]
        cases = [(s, need, 1, (), (), '') for s, n in states]
        cases += [(eom, fl, 1, (), (), '') for fl in (0, allf & ~need, allf)] + [(eom, allf, 0, (), (), '')]
        cases += [(eom, allf, 1, (a,), (), '') for a in ptrs] + ([(eom, allf, 1, tuple(ptrs), (), '')] if len(ptrs) > 1 else [])
        cases += [(eom, allf, 1, (), (a,), '') for a in ptrs]
        for s, fl, opt, null, empty, _ in cases:
            rule = R(p, CC); rule.statef, rule.flagf, rule.flags = statef, flagf, fl
            rule.empty = tuple(prm[a] for a in empty)
            if kind == 'replace_body': rule.body = (prm['body'], prm['body_size'])
            eng = Engine(p, rule)
            def setup(eng, st):
                eng.constrain(st, cx, ne=0)
                st.env[stateloc(cx)] = I(s)
                if opt: eng.constrain(st, ('ld', optloc(cx)), ne=0)
                else: st.env[optloc(cx)] = I0
                for a in ptrs:
                    if a in null: continue
                    eng.constrain(st, prm[a], ne=0)
                    for l in (('x', ('d', prm[a]), I0), ('d', prm[a])):
                        if a in empty: st.env[l] = I0
                        else: eng.constrain(st, ('ld', l), ne=0)
                if 'body_size' in prm: eng.constrain(st, prm['body_size'], lo=0)
            rs = eng.run(f, {f.params[names.index(a) + 1]['n']: I0 for a in null}, setup)
            ctx.used(eng); ctx.count("function runs")
            sname = [n for v, n in states if v == s][0][len(P):]
            where = "in %s with %s%s%s%s" % (sname, "the action granted" if fl & need else "the action not granted" if opt else "nothing negotiated", "", ", %s NULL" % " and ".join(null) if null else "", ", %s empty" % empty[0] if empty else "")
            valid = s == eom and opt and fl & need == need and not set(null) & set(notnull.split()) and not set(empty) & set(notempty.split())
            for l, msg in rule.bad: ctx.violation("%s:body" % name, CC, l or f.line, "%s: %s" % (name, msg))
            for st, v in rs:
                ctx.count("paths")
                V = lambda key, msg: ctx.violation("%s:%s" % (name, key), CC, f.line, "%s %s: %s (path %s)" % (name, where, msg, trace_str(st.trace)))
                app = events(st, 'append')
                t = eng.truth(st, v)
                if events(st, 'write', 'prepend', 'truncate'): V("sent", "something else than buffering is done")
                if not valid:
                    if app: V("accepted", "the modification is sent although it isn't allowed")
                    if t is not False: V("result", "the refused modification isn't reported as failed")
                    if not events(st, 'set-error') and eng.truth(st, ('sym', 'param', f.params[-1]['n'], len(f.params) - 1)) is not False: V("error", "no error is set")
                    continue
                flushed, failed = events(st, 'flush'), events(st, 'failed')
                if any(e[1] != ('ld', bufloc(cx)) for e in app): V("buffer", "it isn't put into the buffer of modifications")
                if app and [e[1] for e in events(st, 'buffering')][-1:] != [I1]: V("flag", "the buffer isn't marked as used")
                if kind == 'replace_body':
                    done = next((e[1] for e in st.mon if e[0] == 'done'), I0)
                    if any(e[0] == 'pending' for e in st.mon) and t is not False: V("lost", "a packet of the new body isn't sent")
                    rest = eng.mkop(st, '-', prm['body_size'], done)
                    c = eng.cons(st, prm['body_size']) if done == I0 else eng.cons(st, rest)
                    if t is not False and not (c[1] <= 0 or eng.truth(st, eng.mkop(st, '<', done, prm['body_size'])) is False or eng.truth(st, eng.mkop(st, '==', prm['body_size'], done)) is True):
                        V("rest", "it succeeds although a part of the new body isn't sent")
                else:
                    canon = tuple(eng.canon(st, prm[a]) if a not in null else I0 for a in order.split())
                    if [e[2] for e in app] != [('call', 'packet', kind) + canon]: V("packet", "%s buffered instead of its packet" % ([show(e[2]) for e in app] or "nothing is"))
                    if t is not True and not failed: V("refused", "an allowed modification fails")
                for l in app:
                    over = None
                # the buffer is sent early when it is over its limit
                if flushed and not app: V("flush", "the buffer is flushed without a modification")
                if failed and t is not False: V("flush-failed", "a failed flush isn't reported")
                if failed and not any(e[:2] == ('emit', 'error') for e in st.mon) and not events(st, 'set-error'): V("flush-error", "a failed flush gives no error")
            ctx.sample({"function": f.name, "case": where, "valid": bool(valid)})
    flushing(ctx, p, flush, statef, flagf, bufloc)
    limit(ctx, p, statef, flagf, bufloc, sizeloc, stateloc, optloc, allf, eom)
    ctx.floor("modification functions", 8); ctx.floor("function runs", 250); ctx.floor("flush paths", 3)
    ctx.assume("the encoder packs at most what it is given of a new body (C03)")

def show(v): return v[2] + str(tuple(x[2] if x[0] == 'sym' else x for x in v[3:])) if v[:2] == ('call', 'packet') else str(v)[:60]
def vfunc_of(p):
    h = vfunc(p, CC, 'flush')
    if h is None: raise AnalysisBroken("the client context has no flush function")
    return h

def flushing(ctx, p, f, statef, flagf, bufloc):
    cx = ('sym', 'param', f.params[0]['n'], 0)
    rule = R(p, CC); rule.statef, rule.flagf = statef, flagf
    eng = Engine(p, rule)
    flag = ('ld', ('f', bufloc(cx)[1], flagf))
    B = ('ld', bufloc(cx))
    def setup(eng, st):
        eng.constrain(st, cx, ne=0); eng.constrain(st, B, ne=0)
        eng.constrain(st, ('ld', ('f', ('d', B), 'str')), ne=0); eng.constrain(st, ('ld', ('f', ('d', B), 'len')), lo=0)
        st.mon = (('flag', flag), ('len', ('ld', ('f', ('d', B), 'len'))))
    rs = eng.run(f, {}, setup)
    ctx.used(eng)
    for st, v in rs:
        ctx.count("flush paths")
        V = lambda key, msg: ctx.violation("flush:" + key, CC, f.line, "flush: %s (path %s)" % (msg, trace_str(st.trace)))
        writes = [(n, e) for n, e in enumerate(st.mon) if e[0] == 'write']
        failed = [e[1] for e in events(st, 'failed')]
        used = eng.truth(st, flag)
        lo, hi = eng.cons(st, ('ld', ('f', ('d', B), 'len')))[:2]
        empty = used is False or hi <= 0
        if used is None and lo <= 0 < hi and not writes: V("unsent", "the buffered modifications may stay unsent"); continue
        want = [(('ld', ('f', ('d', B), 'content')),)]
        if empty:
            if writes and hi > 0 and used is False: V("resent", "something is written although nothing is buffered")
        else:
            if [e[1] for n, e in writes] != want: V("content", "%d writes instead of one of the whole buffer" % len(writes))
            elif not writes[0][1][2]: V("size", "the size written isn't the buffer's")
            tr = [n for n, e in enumerate(st.mon) if e[0] == 'truncate' and e[1] == B]
            if not tr: V("kept", "the buffer isn't emptied, its modifications would be sent again")
            elif writes and tr[0] < writes[0][0]: V("early", "the buffer is emptied before it is written")
            if used is True and [e[1] for e in events(st, 'buffering')][-1:] != [I0]: V("flag", "the buffer stays marked as used")
        t = eng.truth(st, v)
        chain = index(st, lambda e: e[0] == 'chain' and e[1] == 'flush')
        if 'write' in failed:
            if t is not False: V("result", "a failed write isn't reported as failed")
            if not events(st, 'set-error'): V("error", "a failed write sets no error")
        elif chain is None:
            V("chain", "what is written isn't flushed to the MTA")
        elif writes and chain < writes[-1][0]: V("chain-early", "what was written before is flushed, the buffered modifications aren't")
        if 'chain' in failed and t is not False: V("result", "a failed flush isn't reported as failed")

def limit(ctx, p, statef, flagf, bufloc, sizeloc, stateloc, optloc, allf, eom):
    """over its limit the buffer is flushed"""
    f = p.need('milter_client_context_add_header', CC)
    cx = ('sym', 'param', f.params[0]['n'], 0)
    class L(R):
        def on_call(self, eng, st, fr, name, args, node):
            r = R.on_call(self, eng, st, fr, name, args, node)
            if name.replace('_inline', '').startswith('g_string_append') and args[0][0] == 'ld':
                for s, v in r or []: s.env[('f', ('d', args[0]), 'len')] = I(self.length)
            return r
    for ln, lim, over in ((10, 10, 0), (11, 10, 1), (5, 10, 0), (5, 0, 1)):
        rule = L(p, CC); rule.statef, rule.flagf, rule.flags, rule.length = statef, flagf, allf, ln
        eng = Engine(p, rule)
        def setup(eng, st):
            eng.constrain(st, cx, ne=0); st.env[stateloc(cx)] = I(eom); st.env[sizeloc(cx)] = I(lim)
            eng.constrain(st, ('ld', optloc(cx)), ne=0)
            for n in (1, 2): eng.constrain(st, ('sym', 'param', f.params[n]['n'], n), ne=0)
        rs = eng.run(f, {}, setup)
        ctx.used(eng)
        for st, v in rs:
            if over and not events(st, 'flush'): ctx.violation("limit", CC, f.line, "the buffer isn't sent although it is over its limit (%d bytes, limit %d)" % (ln, lim))
            if not over and ln < lim and events(st, 'flush'): ctx.violation("limit", CC, f.line, "the buffer is sent although it is under its limit (%d bytes, limit %d)" % (ln, lim))
