"""Model of the manager's child coordinator for rules C05, C06, C08."""
from absint import *
from facts import AnalysisBroken

CH = "milter/manager/milter-manager-children.c"
RANKED = ["MILTER_STATUS_NOT_CHANGE", "MILTER_STATUS_ACCEPT", "MILTER_STATUS_SKIP", "MILTER_STATUS_CONTINUE",
          "MILTER_STATUS_TEMPORARY_FAILURE", "MILTER_STATUS_REJECT", "MILTER_STATUS_DISCARD"]
SIGNAL = {"MILTER_STATUS_ACCEPT": "accept", "MILTER_STATUS_SKIP": "skip", "MILTER_STATUS_CONTINUE": "continue",
          "MILTER_STATUS_TEMPORARY_FAILURE": "temporary-failure", "MILTER_STATUS_REJECT": "reject",
          "MILTER_STATUS_DISCARD": "discard"}
SIMPLE_STATES = ["CONNECT", "HELO", "ENVELOPE_FROM", "ENVELOPE_RECIPIENT", "DATA"]
MSG_STATES = ["HEADER", "END_OF_HEADER", "BODY", "END_OF_MESSAGE"]
SP = "MILTER_SERVER_CONTEXT_STATE_"

def norm(sig): return sig.replace('_', '-')

def connections(prog, file):
    """signal name -> handler function name, from the g_signal_connect calls of a file"""
    out = {}
    for f in prog.fns.values():
        if f.file != file: continue
        for name, node in f.callees:
            if name in ('g_signal_connect_data', 'g_signal_connect_object') and len(node['a']) >= 3:
                s, h = node['a'][1], node['a'][2]
                if s['k'] == 'str' and h['k'] == 'fn':
                    out.setdefault(norm(s['v']), []).append((h['n'], f.name, node['l']))
    return out

def handler(prog, file, sig):
    c = connections(prog, file).get(sig)
    if not c: raise AnalysisBroken("no handler connected for signal '%s' in %s" % (sig, file))
    f = prog.resolve(c[0][0], file)
    if f is None: raise AnalysisBroken("handler %s not found" % c[0][0])
    return f

def field_of(v):
    """name of the private/struct field a value was loaded from"""
    if v[0] == 'ld' and v[1][0] == 'f': return v[1][2]
    return None

class ChildRule(Rule):
    max_depth = 12
    def __init__(self, prog, state, evaluation=None, fallback=None, table=None, consts=None, stop=()):
        self.p = prog
        self.state = state
        self.evaluation = evaluation
        self.fallback = fallback
        self.table0 = table            # status initially recorded for the state (value) or None
        self.consts = consts or {}
        self.stop = set(stop)
    # mon = (table value for self.state, events)
    def init_mon(self): return (self.table0, ())
    def inline(self, eng, fn):
        if fn.name in self.stop: return False
        return fn.file == CH or fn.name in ('milter_status_compare', 'milter_status_is_pass')
    def event(self, st, ev):
        t, evs = st.mon
        if sum(1 for e in evs if e == ev) < 3: st.mon = (t, evs + (ev,))
    def on_call(self, eng, st, fr, name, args, node):
        if name in self.consts:
            v = self.consts[name]
            return [(st, I(v))] if v is not None else None
        if name == 'milter_server_context_get_state': return [(st, I(self.state))]
        if name == 'milter_manager_child_is_evaluation_mode' and self.evaluation is not None:
            return [(st, I(self.evaluation))]
        if name == 'milter_manager_child_get_fallback_status' and self.fallback is not None:
            return [(st, I(self.fallback))]
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
        if name == 'g_hash_table_lookup' and field_of(args[0]) == 'reply_statuses':
            if args[1] == I(self.state):
                t = st.mon[0]
                return [(st, I0 if t is None else I(t))]
            return [(st, ('call', 'other-state-status', args[1]))]
        if name in ('g_hash_table_insert', 'g_hash_table_replace') and field_of(args[0]) == 'reply_statuses':
            if args[1] == I(self.state) and args[2][0] == 'i':
                st.mon = (args[2][1], st.mon[1])
            self.event(st, ('record', args[1], args[2]))
            return [(st, I1)]
        if name in ('g_hash_table_remove_all', 'g_hash_table_remove') and field_of(args[0]) == 'reply_statuses':
            st.mon = (None if name.endswith('all') or args[1] == I(self.state) else st.mon[0], st.mon[1])
            return [(st, I1)]
        if name == 'g_signal_emit_by_name':
            self.event(st, ('emit', norm(args[1][1]) if args[1][0] == 's' else '?', st.mon[0]) + tuple(args[2:3]))
            return [(st, I0)]
        if name.startswith('milter_server_context_') and not re.search(r'_(get|is|has|need)_', name):
            self.event(st, ('child', name) + tuple(a for a in args[1:2]))
            return None
        if name == 'milter_manager_children_abort':
            self.event(st, ('abort-all',))
            return [(st, I1)]
        if name in self.stop:
            self.event(st, ('call', name))
        return None

def setup_priv(fields, fn=None):
    """initial contents of the coordinator's private structure"""
    bases = [('sym', 'param', 'user_data', n) for n in range(0, 8)]
    if fn is not None:
        bases = [('sym', 'param', x['n'], n) for n, x in enumerate(fn.params) if x['n'] in ('user_data', 'children', 'data')] or bases
        last = fn.params[-1]['n']
        b = ('sym', 'param', last, len(fn.params) - 1)
        if b not in bases: bases.append(b)
    def setup(eng, st):
        for fld, v in fields.items():
            for base in bases:
                st.env[('f', ('d', ('priv', base, 'miltermanagerchildren')), fld)] = v
    return setup
