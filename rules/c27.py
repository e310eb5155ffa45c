"""C27: every command on the control connection is carried out and answered exactly once, truthfully."""
from ctxlib import *
CTX, DEC = 'milter/manager/milter-manager-controller-context.c', 'milter/manager/milter-manager-control-command-decoder.c'
ENC = 'milter_manager_control_reply_encoder_encode_'
CFG = ('call', 'configuration')

class R(CtxRule):
    nn = CtxRule.nn + ('packet', 'configuration', 'xml', 'manager')
    def __init__(self, *a, **k):
        CtxRule.__init__(self, *a, **k)
        self.args = ()
    def on_call(self, eng, st, fr, name, args, node):
        C = lambda *x: tuple(eng.canon(st, a) for a in x)
        if name == 'milter_manager_get_configuration': return [(st, CFG)]
        if name in ('milter_manager_configuration_save_custom', 'milter_manager_configuration_reload', 'milter_manager_reload'):
            self.ev(st, 'do', name[15:], C(*args[:-1]))
            return self.fails(eng, st, fr, node, args[-1], name)
        if name == 'milter_manager_configuration_to_xml': return [(st, ('call', 'xml') + C(args[0]))]
        if name == 'strlen': return [(st, ('call', 'strlen') + C(args[0]))]
        if name.startswith(ENC):
            v = ('call', 'packet', name[len(ENC):], node['l']) + C(*args[3:])
            self.ev(st, 'encode', v)
            for a, x in ((args[1], v), (args[2], ('call', 'size') + v[2:])): self.set_out(eng, st, fr, a, x)
            return [(st, I0)]
        if name == 'milter_agent_write_packet':
            self.ev(st, 'write', eng.canon(st, args[1]), eng.canon(st, args[2]))
            return self.fails(eng, st, fr, node, args[3], 'write')
        if name == 'g_free': self.ev(st, 'free', eng.canon(st, args[0])); return [(st, I0)]
        return CtxRule.on_call(self, eng, st, fr, name, args, node)

def run(ctx):
    p = ctx.prog
    ctx.explanation = ("The handlers connected to the signals of the control command decoder are interpreted abstractly, with each operation succeeding or failing: what is done with the "
        "arguments of the command, which reply is encoded with which contents, and which packets are written, on every path. The decoder's emissions are compared with the handlers.")
    conn = connections(p, CTX)
    emitted = {}
    for f in p.fns.values():
        if f.file != DEC: continue
        for _, _, e in f.exprs():
            for x in walk_stmt(e):
                if x['k'] == 'call' and x.get('fn') in ('g_signal_emit', 'g_signal_emit_by_name'):
                    n = siglib.emitted(p, DEC, x)
                    if n: emitted[norm(n)] = (f, x['l'])
    for sig, (f, line) in sorted(emitted.items()):
        ctx.count("commands"); ctx.sample("command: " + sig)
        hs = [h[0] for h in conn.get(sig, [])]
        if len(hs) != 1: ctx.violation("unanswered:" + sig, CTX, 1, "the command %s has %s" % (sig, "no handler" if not hs else "more than one handler"))
    for sig, hl in sorted(conn.items()):
        for h in hl:
            f = p.resolve(h[0], CTX)
            if f is None: raise AnalysisBroken("no handler function for " + sig)
            ctx.count("handlers")
            rule = R(p, CTX)
            rule.max_depth = 9
            eng = Engine(p, rule)
            prm = [('sym', 'param', q['n'], n) for n, q in enumerate(f.params)]
            for st, v in eng.run(f, {}):
                ctx.count("paths")
                def V(key, msg): ctx.violation("%s:%s" % (sig, key), CTX, f.line, "%s: %s (path %s)" % (h[0], msg, trace_str(st.trace)))
                did, enc, wr = events(st, 'do'), events(st, 'encode'), events(st, 'write')
                if len(wr) != 1: V("count", "the command is answered %d times" % len(wr)); continue
                pk = wr[0][1]
                if not enc or pk[:2] != ('call', 'packet') or pk != enc[-1][1]: V("packet", "what is written isn't the reply which was encoded last"); continue
                if wr[0][2] != ('call', 'size') + pk[2:]: V("size", "the length written isn't that of the reply")
                if index(st, lambda e: e == wr[0]) < index(st, lambda e: e == enc[-1]): V("order", "the reply is written before it is encoded")
                kind, arg = pk[2], pk[4:]
                fe = index(st, lambda e: e[0] == 'encode')
                early = [e[1] for e in st.mon[:fe] if e[0] == 'free']
                if any(a in early for a in arg): V("freed", "the contents of the reply are freed before it is encoded")
                failed = any(e[0] == 'failed' and e[1] != 'write' for e in st.mon)
                def carried(name, *want):
                    if [d[1] for d in did] != [name]: V("done", "the command isn't carried out exactly once"); return
                    if did[0][2] != want: V("args", "the command is carried out with something other than what was asked for")
                    if index(st, lambda e: e[0] == 'do') > index(st, lambda e: e[0] == 'encode'): V("early", "the reply is made before the command is carried out")
                    w = 'error' if failed else 'success'
                    if kind != w: V("truth", "the answer is %s, but the command %s" % (kind, "failed" if failed else "succeeded"))
                    if kind == 'error' and (not arg or eng.truth(st, arg[0]) is False): V("message", "the error has no message")
                if sig == 'set-configuration': carried('configuration_save_custom', CFG, prm[1], prm[2])
                elif sig == 'reload': carried('configuration_reload', CFG)
                else:
                    if did: V("effect", "a query changes the configuration")
                    w = {'get-configuration': 'configuration', 'get-status': 'status'}.get(sig)
                    if w and kind != w: V("kind", "the answer is %s instead of %s" % (kind, w))
                    if sig == 'get-configuration' and arg != (('call', 'xml', CFG), ('call', 'strlen', ('call', 'xml', CFG))): V("xml", "the answer isn't the configuration with its length")
                    if sig == 'get-status' and not (len(arg) == 2 and arg[0][:2] == ('call', 'str') and lin(arg[1]) == lin(('call', 'len', arg[0][2])) or len(arg) == 2 and arg[1] == ('call', 'strlen', arg[0])):
                        V("status", "the answer isn't the status with its length: %s" % (arg,))
            ctx.used(eng)
    ctx.floor("commands", 4); ctx.floor("handlers", 4); ctx.floor("paths", 8)
