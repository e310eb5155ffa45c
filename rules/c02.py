"""C02: the byte stream is cut into packets: each complete packet is dispatched once, then consumed."""
from absint import *
from facts import AnalysisBroken
import childrenlib

DEC = "milter/core/milter-decoder.c"
AG = "milter/core/milter-agent.c"
STATES = ("IN_START", "IN_COMMAND_LENGTH", "IN_COMMAND_CONTENT", "IN_ERROR")
READ_ONLY = ('g_string_equal', 'g_string_hash')

def fold(v, leaf):
    """constant folding of a value expression; leaf(v) gives the value of the leaves"""
    if v[0] == 'i': return v[1]
    if v[0] == 'op':
        a, b = fold(v[2], leaf), fold(v[3], leaf)
        if a is None or b is None: return None
        o = v[1]
        try:
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                    '<<': lambda: a << b, '>>': lambda: a >> b, '==': lambda: int(a == b), '<': lambda: int(a < b), '<=': lambda: int(a <= b)}[o]()
        except KeyError: return None
    if v[0] == 'call' and v[1] in ('ntohl', 'htonl', '__builtin_bswap32', '__bswap_32', 'g_ntohl') and len(v) == 3:
        a = fold(v[2], leaf)
        return None if a is None else int.from_bytes((a & 0xffffffff).to_bytes(4, 'little'), 'big')
    return leaf(v)

class R(Rule):
    """mon = (phase, remembered length, success symbol, appended, error set)"""
    max_depth = 9
    def __init__(self, ctx, fn, S, phase):
        self.ctx, self.fn, self.S, self.phase0 = ctx, fn, S, phase
        pn = fn.params[0]['n']
        self.base = ('d', ('priv', ('sym', 'param', pn, 0), 'milterdecoder'))
    def init_mon(self): return (self.phase0, None, None, 0, 0)
    def inline(self, eng, f): return f.file == DEC
    def widen_key(self, eng, st, fr):
        return (st.env.get(('f', self.base, 'state')), frozenset((l, v) for l, v in st.env.items() if l[0] == 'v' and v in (I0, I1)))
    def fld(self, eng, st, n): return eng.read(st, ('f', self.base, n))
    def buf(self, eng, st): return self.fld(eng, st, 'buffer')
    def lenloc(self, eng, st): return ('f', ('d', self.buf(eng, st)), 'len')
    def strv(self, eng, st): return eng.read(st, ('f', ('d', self.buf(eng, st)), 'str'))
    def bad(self, key, node, msg, st):
        self.ctx.violation(key, self.fn.file, node.get('l', self.fn.line) if node else self.fn.line, msg + " (path %s)" % trace_str(st.trace))
    def on_call(self, eng, st, fr, name, args, node):
        ph, cl, suc, app, err = st.mon
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
        if name in ('ntohl', '__bswap_32', '__builtin_bswap32'): return [(st, ('call', name, args[0]))]
        if name in ('g_set_error', 'g_set_error_literal', 'g_propagate_error', 'milter_utils_set_error_with_sub_error') and args[0] == ('sym', 'param', self.fn.params[-1]['n'], len(self.fn.params) - 1):
            st.mon = (ph, cl, suc, app, 1)
            return [(st, I0)]
        if name in ('g_set_error', 'g_set_error_literal') and args[0][0] == '&':
            eng.havoc(st, fr, args[0][1], ('seterr', node['l']), 'err')
            eng.constrain(st, st.env[args[0][1]], ne=0)
            return [(st, I0)]
        if name in ('memcpy', 'memmove', '__builtin_memcpy') and args[0][0] == '&':
            if args[1] == self.strv(eng, st):
                self.need_header(eng, st, node)
                if args[2] != I(4): self.bad("header:size", node, "the packet length is read from %s bytes" % (args[2],), st)
                eng.store(st, fr, args[0][1], ('hdr', I(0)), node)
            else: eng.havoc(st, fr, args[0][1], ('mc', node['l']), 'mc')
            return [(st, args[0])]
        if name in ('g_signal_emit', 'g_signal_emit_by_name', 'g_signal_emitv'):
            self.ctx.count("dispatch states")
            v = self.fld(eng, st, 'command_length')
            if ph != 'C':
                self.bad("dispatch:phase", node, "a packet is handed to the decoder %s" % ("a second time" if ph == 'D' else "before its length has been read"), st)
            elif cl is not None and v != cl: self.bad("dispatch:length", node, "the length of the packet changed since its header was read", st)
            elif eng.truth(st, eng.mkop(st, '<', eng.read(st, self.lenloc(eng, st)), v)) is not False:
                self.bad("dispatch:complete", node, "a packet is handed to the decoder before all its bytes have arrived", st)
            outs = [a for a in args[2:] if a[0] == '&']
            for n, a in enumerate(outs): eng.havoc(st, fr, a[1], ('emit', node['l'], n), 'out')
            st.mon = ('D', cl, st.env[outs[-1][1]] if outs else None, app, err)
            return [(st, I0)]
        if args and name.startswith('g_string_') and args[0] == self.buf(eng, st) and name not in READ_ONLY:
            ll = self.lenloc(eng, st)
            ln = eng.read(st, ll)
            if name in ('g_string_append_len', 'g_string_append_len_inline'):
                names = [p['n'] for p in self.fn.params]
                want = tuple(('sym', 'param', names[k], k) for k in (1, 2))
                if tuple(args[1:3]) != want: self.bad("append:data", node, "what is added to the pending bytes isn't the received chunk", st)
                if app: self.bad("append:twice", node, "the received chunk is added to the pending bytes twice", st)
                if ph in 'D': self.bad("append:late", node, "the received chunk is added after a packet was dispatched", st)
                app = 1
            elif name in ('g_string_append_printf', 'g_string_append', 'g_string_append_c', 'g_string_append_c_inline'):
                self.bad("append:data", node, "%s adds bytes that were not received" % name, st)
            elif name == 'g_string_erase':
                if args[1] != I0: self.bad("erase:position", node, "bytes are removed from the middle of the pending bytes", st)
                if ph == 'H':
                    self.need_header(eng, st, node)
                    if args[2] != I(4): self.bad("erase:header", node, "%s bytes are removed for a packet length of 4 bytes" % (args[2],), st)
                    ph, cl = 'C', None
                elif ph == 'D':
                    if args[2] != self.fld(eng, st, 'command_length'): self.bad("erase:content", node, "the number of bytes removed after a packet isn't its length", st)
                    if suc is not None and eng.truth(st, suc) is not True: self.bad("erase:failed", node, "a packet is consumed although it isn't known to be decoded successfully", st)
                    ph, cl = 'H', None
                else: self.bad("erase:phase", node, "bytes of a packet are removed before it was dispatched", st)
            else: self.bad("buffer:" + name, node, "%s is applied to the pending bytes" % name, st)
            st.mon = (ph, cl, suc, app, err)
            eng.havoc(st, fr, ll, ('len', node['l']), 'len')
            eng.constrain(st, st.env[ll], lo=0)
            return [(st, args[0])]
        return None
    def need_header(self, eng, st, node):
        if eng.truth(st, eng.mkop(st, '<', eng.read(st, self.lenloc(eng, st)), I(4))) is not False:
            self.bad("header:incomplete", node, "the packet length is read before its 4 bytes have arrived", st)
    def on_store(self, eng, st, fr, loc, val, node):
        ph, cl, suc, app, err = st.mon
        if loc == ('f', self.base, 'command_length'):
            if ph in 'CD' and cl is not None and ph == 'D': self.bad("content:length-changed", node, "the length of a packet changes while it is being processed", st)
    def finish(self, eng, st, v):
        ph, cl, suc, app, err = st.mon
        fn, S = self.fn, self.S
        state = self.fld(eng, st, 'state')
        size = ('sym', 'param', fn.params[2]['n'], 2)
        ctx = self.ctx
        ctx.count("exit states checked")
        if self.phase0 == 'E':
            if eng.truth(st, v) is not False or not err: self.bad("error-state", None, "data received after a decode error is not refused with an error", st)
            if state != I(S["IN_ERROR"]): self.bad("error-state:left", None, "the error state is left", st)
            return
        for truth in (True, False):
            s = st.copy()
            if not eng.assume(s, v, truth): continue
            state = self.fld(eng, s, 'state')
            if not truth:
                if state != I(S["IN_ERROR"]): self.bad("failure:state", None, "decoding fails but the error state isn't entered (state %s)" % (state,), s)
                if not err: self.bad("failure:error", None, "decoding fails without setting an error", s)
                continue
            if err: self.bad("success:error", None, "decoding succeeds with an error set", s)
            if not app and eng.truth(s, size) is not False: self.bad("append:missing", None, "the received chunk isn't kept", s)
            if not app and ph == self.phase0 and s.env.get(('f', self.base, 'state'), None) == I(S[self.start]): continue
            ln = eng.read(s, self.lenloc(eng, s))
            if ph == 'D': self.bad("consumed", None, "a dispatched packet isn't removed from the pending bytes", s)
            elif ph == 'H':
                if state not in (I(S["IN_START"]), I(S["IN_COMMAND_LENGTH"])): self.bad("exit:state", None, "the recorded state (%s) doesn't say that a packet length is awaited" % (state,), s)
                if eng.truth(s, eng.mkop(s, '<', ln, I(4))) is not True: self.bad("exit:pending-length", None, "returns although a complete packet length may be pending", s)
                if state == I(S["IN_START"]) and eng.truth(s, ln) is not False: self.bad("exit:start-pending", None, "the recorded state says that nothing is pending although bytes may be", s)
            elif ph == 'C':
                if state != I(S["IN_COMMAND_CONTENT"]): self.bad("exit:state", None, "the recorded state (%s) doesn't say that packet content is awaited" % (state,), s)
                if eng.truth(s, eng.mkop(s, '<', ln, self.fld(eng, s, 'command_length'))) is not True: self.bad("exit:pending-packet", None, "returns although a complete packet may be pending", s)
                v2 = s.env.get(('f', self.base, 'command_length'))
                if v2 is not None: self.header_value(v2, s)
    def header_value(self, v, st):
        def leaf(x):
            if x == ('hdr', I(0)): return 0x04030201
            if x[0] == 'ld' and x[1][0] == 'x' and x[1][2][0] == 'i': return x[1][2][1] + 1
            return None
        r = fold(v, leaf)
        if r is None: raise AnalysisBroken("the packet length is computed in an unexpected way: %s" % (v,))
        self.ctx.count("length computations checked")
        if (r & 0xffffffff) != 0x01020304: self.bad("header:byte-order", None, "the packet length isn't read in network byte order", st)

def run(ctx):
    p = ctx.prog
    ctx.explanation = ("milter_decoder_decode and its helpers are abstractly interpreted from each stream state; a typestate over header / content / "
        "dispatched checks that a packet is dispatched once and only when complete, that exactly its bytes are then removed, that nothing complete stays "
        "pending on return, and that failure, error and error state coincide.")
    fn = p.need('milter_decoder_decode')
    S = {n: p.enum(n) for n in STATES}
    for s, ph in zip(STATES, "HHCE"):
        r = R(ctx, fn, S, ph); r.start = s
        def setup(eng, st):
            st.env[('f', r.base, 'state')] = I(S[s])
            if s == "IN_COMMAND_CONTENT": st.facts[('ld', ('f', r.base, 'command_length'))] = (1, 2**31 - 1, frozenset())
            st.facts[('ld', ('f', ('d', ('ld', ('f', r.base, 'buffer'))), 'len'))] = (0, INF, frozenset())
        eng = Engine(p, r)
        for st, v in eng.run(fn, None, setup): r.finish(eng, st, v)
        ctx.used(eng); ctx.count("stream states")
    ctx.floor("dispatch states", 1); ctx.floor("exit states checked", 6); ctx.floor("length computations checked", 1)
    end_of_stream(ctx, p, S)
    flow(ctx, p)
    ctx.assume("only milter_decoder_decode and its helpers change the pending bytes of a decoder; a signal handler does not re-enter the decoder")

def end_of_stream(ctx, p, S):
    fn = p.need('milter_decoder_end_decode')
    for s in STATES:
        r = R(ctx, fn, S, 'C'); r.start = s
        def setup(eng, st): st.env[('f', r.base, 'state')] = I(S[s])
        eng = Engine(p, r)
        res = eng.run(fn, None, setup); ctx.used(eng)
        for st, v in res:
            ctx.count("end of stream cases")
            t = eng.truth(st, v)
            if s == "IN_START":
                if t is not True or st.mon[4]: r.bad("end:clean", None, "a stream that ends between packets is reported as an error", st)
            else:
                if t is not False or (not st.mon[4] and s != "IN_ERROR"): r.bad("end:%s" % s, None, "a stream that ends inside a packet isn't reported as an error", st)
                if eng.read(st, ('f', r.base, 'state')) != I(S["IN_ERROR"]): r.bad("end:state:%s" % s, None, "the error state isn't entered when a stream ends inside a packet", st)
    ctx.floor("end of stream cases", 4)

def flow(ctx, p):
    """agent: every chunk from the reader goes to the decoder; an error is reported"""
    h = childrenlib.handler(p, AG, 'flow')
    class F(Rule):
        def inline(self, eng, f): return f.file == AG
        def on_call(self, eng, st, fr, name, args, node):
            if name == 'milter_logger_get_interesting_level': return [(st, I0)]
            if name == 'milter_decoder_decode':
                out = []
                for e in (0, 1):
                    s = st.copy(); v = I0
                    if args[3][0] == '&':
                        eng.havoc(s, fr, args[3][1], ('dec', node['l']), 'err')
                        eng.constrain(s, s.env[args[3][1]], **({'ne': 0} if e else {'eq': 0}))
                    s.mon = s.mon + (('decode', e) + tuple(args[1:3]),)
                    out.append((s, I(1 - e)))
                return out
            if name == 'milter_error_emittable_emit': st.mon = st.mon + (('error',),)
            return None
    eng = Engine(p, F())
    res = eng.run(h); ctx.used(eng)
    for st, v in res:
        d = [e for e in st.mon if e[0] == 'decode']
        ctx.count("chunk hand-over paths")
        names = [x['n'] for x in h.params]
        want = tuple(('sym', 'param', names[k], k) for k in (1, 2))
        if len(d) != 1: ctx.violation("flow:count", h.file, h.line, "a received chunk is handed to the decoder %d times (path %s)" % (len(d), trace_str(st.trace))); continue
        if tuple(d[0][2:]) != want: ctx.violation("flow:data", h.file, h.line, "what is handed to the decoder isn't the received chunk")
        n = st.mon.count(('error',))
        if n != d[0][1]: ctx.violation("flow:error", h.file, h.line, "a decode %s is followed by %d error notifications" % ("failure" if d[0][1] else "success", n))
    ctx.floor("chunk hand-over paths", 2)
