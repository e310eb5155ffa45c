"""Model of the server context (the side which talks to a child milter) for C18 and C19."""
from ctxlib import *
import c16
P, S, M = "MILTER_SERVER_CONTEXT_STATE_", "MILTER_STATUS_", "MILTER_STATE_"

class SRule(CtxRule):
    """adds: result(fn, args) for the message result, stored status, timers by role"""
    step = None      # value of milter_option_get_step, or None for unknown
    version = None
    def on_store(self, eng, st, fr, loc, val, node):
        if loc[0] == 'f' and loc[1][0] == 'd' and loc[1][1][0] == 'priv':
            if loc[2] == self.statef: self.ev(st, 'state', val)
            if val[0] == 'sym' and val[1] == 'timer': self.ev(st, 'timer-kept', loc[2], val)
        elif val[0] == 'sym' and val[1] == 'timer' and loc[0] == 'f': self.ev(st, 'timer-kept', loc[2], val)
    def on_call(self, eng, st, fr, name, args, node):
        base = name.replace('_inline', '')
        if name.startswith('milter_message_result_'):
            n = name[22:]
            if n == 'new': return [(st, ('call', 'result'))]
            if n.startswith('get_'): return [(st, ('call', 'result-part', n[4:]))]
            self.ev(st, 'result', n, tuple(eng.canon(st, a) for a in args[1:])); return [(st, I0)]
        if name == 'milter_headers_add_header': self.ev(st, 'result', 'header', tuple(eng.canon(st, a) for a in args)); return [(st, I1)]
        if name == 'milter_option_get_step' and self.step is not None: return [(st, I(self.step))]
        if name == 'milter_option_get_version' and self.version is not None: return [(st, I(self.version))]
        if name == 'milter_option_copy': return [(st, ('call', 'option-copy', args[0]))]
        if name == 'milter_option_combine':
            s = st.copy(); self.ev(st, 'combine', args[0], eng.canon(st, args[1]), 1); self.ev(s, 'combine', args[0], eng.canon(s, args[1]), 0)
            return [(st, I1), (s, I0)]
        if name in ('milter_protocol_agent_set_macros_requests', 'milter_protocol_agent_clear_message_related_macros'):
            self.ev(st, 'call', name, tuple(eng.canon(st, a) for a in args[1:])); return [(st, I0)]
        if base in ('g_timer_stop', 'g_timer_continue', 'g_timer_start', 'g_timer_elapsed'):
            self.ev(st, 'clock', base[8:]); return [(st, self.unknown(eng, st, fr, node, 'elapsed'))]
        return CtxRule.on_call(self, eng, st, fr, name, args, node)
    nn = CtxRule.nn + ('option-copy', 'result', 'result-part')

class Model:
    def __init__(self, p):
        self.p, E = p, p.enum
        g = lambda n: getter_loc(p, 'milter_server_context_' + n, SC)
        self.statef, self.state = g('get_state')
        self.statusf, self.status = g('get_status')
        self.quittedf, self.quitted = g('is_quitted')
        self.optionf, self.option = g('get_option')
        self.resultf, self.result = g('get_message_result')
        self.processingf, self.processing = g('is_processing_message')
        self.skipf, self.skip = g('get_skip_body')
        self.timerf = c16.timer_field(p, SC)
        s = self.state(('sym', 'x', 'x', 0))
        self.base = lambda obj: self.state(obj)[1]
        self.states = enum_values(p, P)
        self.conn = connections(p, SC)
    def timer(self, obj): return ('f', self.base(obj), self.timerf)
    def at(self, obj, field): return ('f', self.base(obj), field)
    def rule(self, cls=SRule, **k):
        r = cls(self.p, SC, **k)
        r.statef = self.statef
        return r
    def handler(self, sig):
        hs = [self.p.resolve(h[0], SC) for h in self.conn.get(sig, [])]
        hs = [h for h in hs if h is not None]
        return hs
    def timeout_handler(self, prop):
        """function which emits the signal `prop`-timeout"""
def stopped(st, m, cx, eng):
    """the waiting timer was removed, or none was running; index of the removal or -1"""
    rm = index(st, lambda e: e[0] == 'remove' and e[1] == ('sym', 'waiting', 'timer', 0))
    if rm is not None: return rm
    c = st.facts.get(('sym', 'waiting', 'timer', 0))
    return -1 if c is not None and c[:2] == (0, 0) else None
WAIT = ('sym', 'waiting', 'timer', 0)
