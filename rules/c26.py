"""C26: a setting reads back as it was set and changes no other; clearing a configuration puts every setting back."""
from ctxlib import *
EGG, COND = "milter/manager/milter-manager-egg.c", "milter/manager/milter-manager-applicable-condition.c"
CONF, CLI, MAN = "milter/manager/milter-manager-configuration.c", "milter/client/milter-client.c", "milter/manager/milter-manager.c"
GIVEN = ('call', 'given')
KIND = {'static_string': 'string', 'take_string': 'string', 'instance': 'object', 'static_boxed': 'boxed', 'take_boxed': 'boxed', 'take_object': 'object', 'string_take_ownership': 'string'}

class Init(Rule):
    """reads a class initialiser"""
    def init_mon(self): return ()
    def inline(self, eng, f): return f.static and f.file == self.file and len(f.raw['params']) > 0
    def on_call(self, eng, st, fr, name, args, node):
        if name.startswith('g_param_spec_'): return [(st, ('call', 'spec', name[13:]) + tuple(args))]
        if name == 'g_object_class_install_property':
            st.mon = st.mon + (('prop', args[1], args[2], node['l']),); return [(st, I0)]
        if name == 'g_signal_new' or name.startswith('g_type_class'): return [(st, I0)]
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
    def on_store(self, eng, st, fr, loc, val, node):
        if loc[0] == 'f' and val[0] == 'fn': st.mon = st.mon + (('slot', loc[2], val[1]),)

class R(CtxRule):
    """mon: what get_property answers"""
    files = ()
    base = {}
    max_depth = 11
    only = None
    lists = (('call', 'given'),)
    def inline(self, eng, f):
        if f.file not in self.files or f.variadic: return False
        return self.only is None or f.rt != 'void' or f.key() in self.only
    def on_store(self, eng, st, fr, loc, val, node):
        if loc[0] == 'f' and self.only is not None: st.facts.pop(('ld', loc), None)     # nothing depends on the value overwritten
    def widen_key(self, eng, st, fr):
        return frozenset((l, v) for l, v in st.env.items() if l[0] in 'vf' and (v[:2] == ('call', 'seq') or v == I0 and len(self.lists) > 1 or any(mentions(v, x) for x in self.lists))) | \
            frozenset((v, eng.truth(st, v)) for v in self.lists)
    def on_call(self, eng, st, fr, name, args, node):
        m = re.match(r'g_value_(get|dup|set|take)_(\w+)$', name)
        if m:
            k = KIND.get(m.group(2), m.group(2))
            if m.group(1) in ('get', 'dup'):
                self.ev(st, 'kind', k); return [(st, GIVEN)]
            self.ev(st, 'answer', k, eng.canon(st, args[1])); return [(st, I0)]
        if name.startswith('*'):
            g = self.slots.get(name[1:])
            if g is not None and fr.fn is g: g = self.base.get(name[1:])   # an override calls its parent's
            if g is None: return []
            return eng.call_fn(st, fr, g, args)
        if name == 'milter_protocol_agent_set_macro_context': return None
        base = name.replace('_inline', '')
        if base in ('g_strdup', 'g_object_ref', 'g_list_copy', 'g_hash_table_ref', 'g_io_channel_ref', 'milter_headers_copy', 'g_bytes_ref', 'g_memdup', 'g_memdup2', 'milter_option_copy',
                    'milter_generic_socket_address_copy', 'g_list_copy_deep', 'milter_utils_list_copy'):
            return [(st, I0 if args[0] == I0 else args[0])]
        if base == 'g_list_append':
            l = args[0][2:] if args[0][:2] == ('call', 'seq') else () if eng.truth(st, args[0]) is False else None
            if l is not None: return [(st, ('call', 'seq') + (l + (args[1],) if len(l) < 2 else l))]
        if base == 'memcmp': return [(st, self.unknown(eng, st, fr, node, 'memcmp'))]
        if base == 'memcpy' and args[0][0] == '&': st.env[args[0][1]] = ('ld', ('d', args[1])); return [(st, args[0])]
        if base == 'memset' and args[0][0] == '&': eng.clear_sub(st, args[0][1]); st.env[args[0][1]] = I0; return [(st, args[0])]
        if name.endswith('_logger_new'): return [(st, self.unknown(eng, st, fr, node, name, ne=0))]
        if base in ('g_free', 'g_object_unref', 'g_list_free', 'g_list_foreach', 'g_list_free_full', 'g_hash_table_unref', 'g_io_channel_unref'): return [(st, I0)]
        return CtxRule.on_call(self, eng, st, fr, name, args, node)

def slots_of(p, file):
    """class slots and properties of the class a file implements"""
    slots, props = {}, []
    for f in p.fns.values():
        if f.file != file: continue
        if not any(n == 'g_object_class_install_property' for n, _ in f.callees): continue
        r = Init(); r.file = file
        eng = Engine(p, r)
        for st, v in eng.run(f):
            for e in st.mon:
                if e[0] == 'slot': slots[e[1]] = p.resolve(e[2], file)
                elif e not in props: props.append(e)
    return slots, props

class Model:
    def __init__(self, p, file, files=None, slots=None):
        self.p, self.file = p, file
        self.files = files or (file,)
        own, self.props = slots_of(p, file)
        self.slots = dict(own); self.slots.update(slots or {})
        self.stats = []
    def rule(self):
        r = R(self.p, self.file); r.files, r.slots = self.files, self.slots
        return r
    def setup(self, eng, st, me):
        eng.constrain(st, me, ne=0)
        cls = ('d', ('ld', ('f', ('d', me), 'g_class')))
        eng.constrain(st, NEXT(NEXT(GIVEN)), lo=0, hi=0)        # lists of up to two elements
        for s, g in self.slots.items():
            if g is not None: st.env[('f', cls, s)] = ('fn', g.name)
    def call(self, eng, st, fn, vals):
        st = st.copy(); st.mon = (); fr = Frame(fn, 0, None)
        for q, v in zip(fn.params, vals): st.env[('v', fr.id, q['id'], q['n'])] = v
        return eng.run_fn(st, fr)
    def start(self, eng, me):
        st = St(mon=()); self.setup(eng, st, me); return st

def NEXT(v): return ('ld', ('f', ('d', v), 'next'))
def mentions(v, x): return v == x or isinstance(v, tuple) and any(isinstance(w, tuple) and mentions(w, x) for w in v)
OTHER = ('sym', 'param', 'other', 1)
ME = ('sym', 'param', 'object', 0)
def same(eng, st, a, b):
    a, b = eng.canon(st, a), eng.canon(st, b)
    if a == b: return True
    if a[0] == '&' and b[0] == 'call':       # kept by value
        part = {l[2]: x for l, x in st.env.items() if l[0] == 'f' and l[1] == a[1]}
        return st.env.get(a[1]) == ('ld', ('d', b)) or len(part) > 1 and all(x == ('ld', ('f', ('d', b), n)) for n, x in part.items())
    if a[0] == '&' and b == I0:        # none: zeros
        return all(x == I0 for l, x in st.env.items() if l == a[1] or l[0] == 'f' and l[1] == a[1]) and any(l == a[1] or l[0] == 'f' and l[1] == a[1] for l in st.env)
    if a[:2] == ('call', 'seq'):      # a list rebuilt from the elements of another
        node = b
        for x in a[2:]:
            if x != ('ld', ('f', ('d', node), 'data')): return False
            node = ('ld', ('f', ('d', node), 'next'))
        return eng.truth(st, node) is False
    for f, c in st.facts.items():
        if f[0] == 'call' and f[1] in ('strcmp', 'g_strcmp0', 'g_str_equal') and {eng.canon(st, x) for x in f[2:]} == {a, b}:
            return c[:2] == (0, 0) if f[1] != 'g_str_equal' else not (c[0] <= 0 <= c[1] and 0 not in c[2])
    return eng.truth(st, eng.mkop(st, '==', a, b)) is True
def clamped(eng, st, v):
    """a limit the value given exceeds"""
    c = st.facts.get(GIVEN)
    return v[0] == 'i' and c is not None and (c[0] >= v[1] or c[1] <= v[1])

def run(ctx):
    p = ctx.prog
    ctx.explanation = ("abstract interpretation of every property accessor and every public setter/getter pair: the value set is a symbol, and what the getters of the class answer afterwards is "
                       "compared with it (the one set) and with what they answered before (the others); the same for the manager's delegation to its configuration, "
                       "for clearing a configuration (against the declared defaults), for merging eggs and conditions, and for hatching a child from an egg")
    files = sorted({f.file for f in p.fns.values() if any(n == 'g_object_class_install_property' for n, _ in f.callees)})
    models = {f: Model(p, f) for f in files}
    for file in files: check_props(ctx, models[file])
    check_pairs(ctx, models)
    check_clear(ctx, models[CONF])
    check_manager(ctx, models)
    check_merge(ctx, models[EGG], 'milter_manager_egg')
    check_merge(ctx, models[COND], 'milter_manager_applicable_condition')
    check_hatch(ctx, models[EGG])
    ctx.floor("properties", 110); ctx.floor("setters", 100); ctx.floor("settings cleared", 30)

def bad(ctx, key, file, line, msg, st=None):
    ctx.violation(key, file, line, msg + (" (path %s)" % trace_str(st.trace) if st is not None and st.trace else ""))

def pairs(p):
    """public setters of one value with their getters, by file"""
    pub = {f.name: f for f in p.fns.values() if not f.static and f.file.startswith('milter/')}
    out = defaultdict(list)
    for n, f in sorted(pub.items()):
        if '_set_' not in n or f.variadic: continue
        vals = [q for q in f.params[1:] if q['n'] != 'error']
        if len(vals) != 1: continue
        a, b = n.split('_set_', 1)
        for g in (a + '_get_' + b, a + '_is_' + b):
            if g in pub and len(pub[g].params) == 1 and pub[g].file == f.file: out[f.file].append((b, f, pub[g])); break
    return out

# the answer also depends on other state: a constant then
DERIVED = {'milter_server_context_set_processing_message', 'milter_server_context_set_quitted',   # only after negotiation
           'milter_client_set_event_loop',                    # none in multi thread mode
           'milter_client_context_set_socket_address',        # an all-zero address is none
           'milter_logger_set_path'}                          # "-" is the standard output
def check_pairs(ctx, models):
    p = ctx.prog
    for file, prs in pairs(p).items():
        m = models.get(file) or Model(p, file)
        eng = Engine(p, m.rule())
        st0 = m.start(eng, ME)
        old = {b: {v for s, v in m.call(eng, st0, g, [ME])} for b, f, g in prs}
        for b, f, g in prs:
            ctx.count("setters")
            errp = [('sym', 'param', 'error', 2)] if f.params[-1]['n'] == 'error' else []
            V = lambda key, msg, st: ctx.violation("%s:%s" % (f.name, key), file, f.line, "%s: %s (path %s)" % (f.name, msg, trace_str(st.trace)))
            exact = False
            for st, v in m.call(eng, st0, f, [ME, GIVEN] + errp):
                ctx.count("paths")
                failed = bool(errp) and v == I0
                for s, x in m.call(eng, st, g, [ME]):
                    if failed: continue
                    ctx.count("answers")
                    if same(eng, s, x, GIVEN): exact = True; continue
                    if clamped(eng, s, x): continue
                    dflt = p.resolve(f.name.replace('_set_', '_get_default_'), file)
                    if dflt is not None and eng.truth(s, GIVEN) is False and x in {y for t, y in m.call(eng, st, dflt, [ME])}: continue
                    if f.name in DERIVED and x[0] == 'i': continue
                    V("back", "%s answers %s" % (g.name, x), s)
                for b2, f2, g2 in prs:
                    if b2 == b or f.name in DERIVED or g2.name.endswith('_result_get_elapsed_time'): continue      # computed from two others
                    for s, x in m.call(eng, st, g2, [ME]):
                        if b == 'default_' + b2 and same(eng, s, x, GIVEN): continue
                        if not any(same(eng, s, x, y) for y in old[b2]): V("other", "it changes what %s answers" % g2.name, s)
        ctx.used(eng)

def answers(m, eng, st, pid):
    g = m.slots['get_property']
    out = []
    for s, v in m.call(eng, st, g, [ME, I(pid), ('sym', 'param', 'value', 2), ('sym', 'param', 'pspec', 3)]):
        out.append((s, [e for e in s.mon if e[0] == 'answer']))
    return out

SWITCH = {'start-syslog': 'milter_client_get_syslog_enabled'}
def check_props(ctx, m):
    p, byid = m.p, {}
    for e in m.props:
        pid, spec = e[1][1], e[2]
        name, kind = spec[3][1], spec[2]
        flags = spec[-1][1]
        if pid in byid: ctx.violation("%s:%s:id" % (m.file, name), m.file, e[3], "property %s has the same id as %s: setting one sets the other" % (name, byid[pid][0])); continue
        byid[pid] = (name, kind, flags, e[3], spec)
    old = {}
    eng = Engine(p, m.rule())
    st0 = m.start(eng, ME)
    for pid, (name, kind, flags, line, spec) in byid.items():
        if flags & 1: old[pid] = {a[0][2] for s, a in answers(m, eng, st0, pid) if a}
    for pid, (name, kind, flags, line, spec) in byid.items():
        ctx.count("properties")
        V = lambda key, msg, st: ctx.violation("%s:%s:%s" % (m.file, name, key), m.file, line, "property %s: %s (path %s)" % (name, msg, trace_str(st.trace)))
        if flags & 1:
            for s, a in answers(m, eng, st0, pid):
                if len(a) != 1: V("read", "can't be read", s)
                elif a[0][1] != kind: V("read", "is declared as %s and read as %s" % (kind, a[0][1]), s)
        if not flags & 2: continue
        for st, v in m.call(eng, st0, m.slots['set_property'], [ME, I(pid), ('sym', 'param', 'value', 2), ('sym', 'param', 'pspec', 3)]):
            ctx.count("paths")
            if name in SWITCH:
                on = p.need(SWITCH[name], m.file)
                for s, x in m.call(eng, st, on, [ME]):
                    t, g = eng.truth(s, x), eng.truth(s, GIVEN)
                    if t is None or t is not g: V("switch", "after it %s doesn't answer the value set" % on.name, s)
            ks = [e for e in st.mon if e[0] == 'kind']
            if not ks: V("write", "can't be set", st); continue
            if {k[1] for k in ks} != {kind}: V("write", "is declared as %s and set as %s" % (kind, ks[0][1]), st)
            if flags & 1:
                for s, a in answers(m, eng, st, pid):
                    if a and not same(eng, s, a[0][2], GIVEN) and not clamped(eng, s, a[0][2]) and not (name == 'event-loop' and a[0][2] == I0): V("back", "reads back as %s" % (a[0][2],), s)
            for o in byid:
                if o == pid or not byid[o][2] & 1: continue
                for s, a in answers(m, eng, st, o):
                    if a and not any(same(eng, s, a[0][2], x) for x in old[o]): V("other", "setting it changes %s" % byid[o][0], s)
    ctx.used(eng)

def check_clear(ctx, m):
    """after milter_manager_configuration_clear every setting has its declared default"""
    p = ctx.prog
    f = p.need('milter_manager_configuration_clear', CONF)
    pub = [p.need('milter_manager_configuration_get_' + n, CONF) for n in ('eggs', 'applicable_conditions')]
    fields = set().union(*(g.fields_read for g in [m.slots['get_property']] + pub + [h for h in p.callees(m.slots['get_property']) if h.file == CONF])) - {'parent_instance', 'g_class'}
    r = m.rule(); r.only = p.reach_calls(lambda h: h.file == CONF and bool(h.fields_written & fields), 'c26 settings')
    eng = Engine(p, r)
    st0 = m.start(eng, ME)
    for st, v in m.call(eng, st0, f, [ME, ('sym', 'param', 'error', 1)]):
        for e in m.props:
            pid, spec = e[1][1], e[2]
            if not spec[-1][1] & 2: continue
            ctx.count("settings cleared")
            default = spec[-2]
            for s, a in answers(m, eng, st, pid):
                if a and eng.canon(s, a[0][2]) != default:
                    bad(ctx, "clear:%s" % spec[3][1], CONF, f.line, "after a reload %s is %s, its default is %s" % (spec[3][1], a[0][2], default), s)
    for g in pub:
        name = g.name[len('milter_manager_configuration_get_'):]
        for st, v in m.call(eng, st0, f, [ME, ('sym', 'param', 'error', 1)]):
            for s, x in m.call(eng, st, g, [ME]):
                if eng.canon(s, x) != I0: bad(ctx, "clear:%s" % name, CONF, f.line, "after a reload the old %s are still there" % name, s)
    names = {e[2][3][1] for e in m.props}
    for b, h, g in pairs(p)[CONF]:         # settings which are no properties
        if b.replace('_', '-') in names: continue
        ctx.count("settings cleared")
        old = {v for s, v in m.call(eng, st0, g, [ME])}
        for st, v in m.call(eng, st0, f, [ME, ('sym', 'param', 'error', 1)]):
            for s, x in m.call(eng, st, g, [ME]):
                if x in old and x[0] != 'i': bad(ctx, "clear:%s" % b, CONF, f.line, "after a reload %s answers the old value" % g.name, s)
    ctx.used(eng)

CONFNAME = {'connection_spec': 'manager_connection_spec', 'unix_socket_mode': 'manager_unix_socket_mode', 'unix_socket_group': 'manager_unix_socket_group',
            'run_as_daemon': 'daemon', 'remove_unix_socket_on_close': 'remove_manager_unix_socket_on_close'}
def check_manager(ctx, models):
    """what a manager's client part answers is the configuration's setting, and setting it sets the configuration's"""
    p = ctx.prog
    base, man = models[CLI].slots, slots_of(p, MAN)[0]
    m = Model(p, MAN, (CLI, MAN, CONF), {**base, **man})
    m.slots = {**base, **man}
    def rule():
        r = m.rule(); r.base = base; return r
    eng = Engine(p, rule())
    st0 = m.start(eng, ME)
    conf = {a[0][2] for s, a in answers(m, eng, st0, next(e[1][1] for e in m.props if e[2][3][1] == 'configuration')) if a}
    if len(conf) != 1: raise AnalysisBroken("the configuration of a manager isn't known")
    conf = conf.pop()
    eng.constrain(st0, conf, ne=0)
    mb = Model(p, CLI)
    getters = {}
    for slot in sorted(man):
        if not re.match(r'(get|is)_', slot) or slot not in base or slot == 'get_property': continue
        g = p.resolve('milter_client_' + slot, CLI)
        if g is not None: getters[slot.split('_', 1)[1]] = g
    before = {n: {eng.canon(s, x) for s, x in m.call(eng, st0, g, [ME])} for n, g in getters.items()}
    for slot in sorted(man):
        if not re.match(r'(get|is)_', slot) or slot not in base: continue
        name = slot.split('_', 1)[1]
        get = p.resolve('milter_client_' + slot, CLI)
        cn = CONFNAME.get(name, name)
        cget = p.resolve('milter_manager_configuration_get_' + cn, CONF) or p.resolve('milter_manager_configuration_is_' + cn, CONF)
        cset = p.resolve('milter_manager_configuration_set_' + cn, CONF)
        mset = p.resolve('milter_client_set_' + name, CLI)
        if slot in ('get_property',) or get is None: continue
        if cget is None or cset is None: raise AnalysisBroken("no setting of the configuration for %s" % slot)
        own = {x for s, x in mb.call(eng, mb.start(eng, ME), get, [ME])}
        ctx.count("settings of a manager")
        exact = False
        for st, v in m.call(eng, st0, cset, [conf, GIVEN]):
            for s, x in m.call(eng, st, get, [ME]):
                ctx.count("paths")
                if same(eng, s, x, GIVEN): exact = True; continue
                if eng.truth(s, GIVEN) is False or eng.canon(s, x) in own: continue
                bad(ctx, "manager:%s" % name, MAN, man[slot].line, "with the setting given, %s answers %s" % (get.name, x), s)
        if not exact: bad(ctx, "manager:%s" % name, MAN, man[slot].line, "%s never answers the configuration's setting" % get.name)
        if mset is None or 'set_' + name not in man: continue
        errp = [('sym', 'param', 'error', 2)] if mset.params[-1]['n'] == 'error' else []
        ends = [st for st, v in m.call(eng, st0, mset, [ME, GIVEN] + errp) if not (errp and v == I0)]
        for n, g in getters.items():
            if n == name: continue
            after = {eng.canon(s, x) for st in ends for s, x in m.call(eng, st, g, [ME])}
            if after != before[n]: bad(ctx, "manager:set:%s:other" % name, MAN, man['set_' + name].line, "setting it changes whose setting %s answers" % g.name, ends[0])
        for st in ends:
            for g, o in ((get, ME), (cget, conf)):
                for s, x in m.call(eng, st, g, [o]):
                    ctx.count("paths")
                    if same(eng, s, x, GIVEN) or eng.truth(s, GIVEN) is False: continue
                    bad(ctx, "manager:set:%s" % name, MAN, man['set_' + name].line, "after %s of a manager %s answers %s" % (mset.name, g.name, x), s)
    ctx.floor("settings of a manager", 8)
    ctx.used(eng)

def check_merge(ctx, m, prefix):
    """merging takes over every setting which is given"""
    p = ctx.prog
    f = p.need(prefix + '_merge', m.file)
    eng = Engine(p, m.rule())
    st0 = m.start(eng, ME); m.setup(eng, st0, OTHER)
    getters = {}
    for q in p.fns.values():
        mm = re.match(prefix + r'_(get|is)_(\w+)$', q.name)
        if mm and not q.static and q.file == m.file and len(q.params) == 1 and mm.group(2) not in ('name', 'type'): getters[mm.group(2)] = q
    def val(o):
        return {n: next(iter(m.call(eng, st0, g, [o])))[1] for n, g in getters.items()}
    mine, others = val(ME), val(OTHER)
    eng.rule.lists = list(others.values())
    for v in eng.rule.lists: eng.constrain(st0, NEXT(NEXT(v)), lo=0, hi=0)
    for st, v in m.call(eng, st0, f, [ME, OTHER, ('sym', 'param', 'error', 2)][:len(f.params)]):
        if f.params[-1]['n'] == 'error' and v == I0: continue
        for n, g in getters.items():
            ctx.count("settings merged")
            for s, x in m.call(eng, st, g, [ME]):
                if same(eng, s, x, others[n]): continue
                absent = [k for k in getters if (k == n or n.startswith(k)) and eng.truth(s, others[k]) is False]
                if absent and (same(eng, s, x, mine[n])): continue
                bad(ctx, "%s:merge:%s" % (prefix, n), m.file, f.line, "merging leaves %s as %s" % (n, x), s)
    ctx.floor("settings merged", 2)
    ctx.used(eng)

class HatchR(R):
    """events: ('give', property, value), ('spec', value, success), ('emit', ...)"""
    def on_call(self, eng, st, fr, name, args, node):
        f = self.p.resolve(name, fr.fn.file)
        k = next((n for n, a in enumerate(args) if a[0] == 's'), None)
        if (name.startswith('g_object_new') or f is not None and f.variadic and f.static and f.file == self.file) and k is not None:
            a = args[k:]
            for n in range(0, len(a) - 1, 2):
                if a[n][0] != 's': break
                self.ev(st, 'give', a[n][1].replace('_', '-'), eng.canon(st, a[n + 1]))
            return [(st, ('call', 'string', 'child'))]
        if name.startswith('g_object_set') and k is not None: return self.on_call(eng, st, fr, 'g_object_new', args, node)
        m = re.match(r'milter_(?:manager_child|server_context)_set_(\w+)$', name)
        if m and m.group(1) == 'connection_spec':
            s = st.copy(); self.ev(st, 'spec', eng.canon(st, args[1]), 1); self.ev(s, 'spec', eng.canon(st, args[1]), 0)
            if args[2][0] == '&': v = eng.fresh(s, fr, ('error', node['l']), 'error'); s.env[args[2][1]] = v; eng.constrain(s, v, ne=0)
            return [(st, I1), (s, I0)]
        if m: self.ev(st, 'give', m.group(1).replace('_', '-'), eng.canon(st, args[1])); return [(st, I0)]
        return R.on_call(self, eng, st, fr, name, args, node)

def check_hatch(ctx, m):
    """a child has the settings of its egg"""
    p = ctx.prog
    f = p.need('milter_manager_egg_hatch', EGG)
    r = HatchR(p, EGG); r.files, r.slots = m.files, m.slots
    eng = Engine(p, r)
    st0 = m.start(eng, ME)
    want = {}
    plain = Engine(p, m.rule())
    for e in m.props:
        n = e[2][3][1]
        if n in ('description', 'enabled') or not e[2][-1][1] & 1: continue
        want[n] = next(a[0][2] for s, a in answers(m, plain, st0, e[1][1]) if a)
    spec = want.pop('connection-spec')
    ctx.count("settings hatched", len(want))
    for st, v in m.call(eng, st0, f, [ME]):
        ctx.count("paths")
        V = lambda key, msg: bad(ctx, "hatch:" + key, EGG, f.line, msg, st)
        give = {}
        for e in events(st, 'give'): give[e[1]] = e[2]
        for n in want:
            if give.get(n) is None or not same(eng, st, give[n], want[n]): V(n, "the child's %s is %s" % (n, give.get(n, 'not set')))
        for n in give:
            if n not in want: V(n, "the child is given %s" % n)
        sp = events(st, 'spec')
        if eng.truth(st, spec) is False:
            if v != I0: V("spec", "a child without connection spec is hatched")
        elif len(sp) != 1 or sp[0][1] != spec: V("spec", "the child isn't given the connection spec")
        out = [e for e in events(st, 'emit') if e[1] == 'hatched']
        if bool(out) != bool(sp and sp[0][2]) or len(out) > 1: V("hatched", "hatched is emitted %d times" % len(out))
        if out and v != out[0][2][0]: V("hatched", "another child is announced than returned")
    ctx.floor("settings hatched", 8)
    ctx.used(eng)
