"""C20: every child is offered what the MTA offered, and what the MTA is answered is made of all replies."""
import itertools
from ctxlib import *

OPT, CH = "milter/core/milter-option.c", "milter/manager/milter-manager-children.c"
FIELDS = ('step', 'action', 'version')
W = 0xffffffff

class Bits:
    """bitwise functions, compared for every value of their operands: bits are independent of each other"""
    def __init__(self, p):
        m = lambda *pre: sum(v for n, v in p.enums.items() if n in pre)
        steps = {n[len('MILTER_STEP_'):]: v for n, v in p.enums.items() if n.startswith('MILTER_STEP_') and 'MASK' not in n and n != 'MILTER_STEP_NONE'}
        self.yes = steps['SKIP'] | steps['ENVELOPE_RECIPIENT_REJECTED'] | steps['HEADER_VALUE_WITH_LEADING_SPACE']
        self.reply = sum(v for n, v in steps.items() if n.startswith('NO_REPLY_'))
        self.event = sum(v for n, v in steps.items() if n.startswith('NO_') and not n.startswith('NO_REPLY_'))
        if bin(self.event).count('1') != 9 or bin(self.reply).count('1') != 9: raise AnalysisBroken("unexpected steps")
        self.no = self.event | self.reply
    def ev(self, v, env):
        k = v[0]
        if k == 'i': return v[1] & W
        if k == 'op' and v[1] in '&|^' and len(v[1]) == 1:
            a, b = self.ev(v[2], env), self.ev(v[3], env)
            if a is None or b is None: return None
            return a & b if v[1] == '&' else a | b if v[1] == '|' else a ^ b
        if k == 'un' and v[1] == '~':
            a = self.ev(v[2], env)
            return None if a is None else ~a & W
        return env.get(v)
    def atoms(self, v):
        if v[0] == 'op' and v[1] in ('&', '|', '^'): return self.atoms(v[2]) | self.atoms(v[3])
        if v[0] == 'un' and v[1] == '~': return self.atoms(v[2])
        return set() if v[0] == 'i' else {v}
    def differ(self, st, got, want, known):
        """bits on which a value isn't the function wanted of the values known (name -> value), for the values a path allows"""
        if got is None: return W
        names = sorted(known)
        odd = self.atoms(got) - set(known.values())
        if odd: return W
        zero = [t for t, c in st.facts.items() if c[0] == 0 == c[1] and self.atoms(t) <= set(known.values())]
        bad = 0
        for vals in itertools.product((0, W), repeat=len(names)):
            env = {known[n]: x for n, x in zip(names, vals)}
            a = self.ev(got, env)
            if a is None: return W
            d = a ^ (want(**dict(zip(names, vals))) & W)
            for t in zero: d &= ~(self.ev(t, env) or 0)
            bad |= d
        return bad
    def show(self, p, bits):
        return ', '.join(sorted(n for n, v in p.enums.items() if n.startswith(('MILTER_STEP_', 'MILTER_ACTION_')) and v and bin(v).count('1') == 1 and v & bits))[:120] or hex(bits)

class O(CtxRule):
    """the option's own functions"""
    def on_call(self, eng, st, fr, name, args, node):
        if name == 'g_object_new':
            props = {}
            for n in range(1, len(args) - 1, 2):
                if args[n][0] == 's': props[args[n][1]] = eng.canon(st, args[n + 1])
            self.ev(st, 'made', tuple(sorted(props.items())))
            return [(st, ('call', 'object'))]
        if name.startswith('g_param_spec_'): return [(st, ('call', 'spec', args[0]))]
        if name == 'g_object_class_install_property': self.ev(st, 'property', args[1], args[2]); return [(st, I0)]
        if name.startswith('g_value_get_'): return [(st, ('call', 'value', args[0]))]
        if name.startswith('g_value_set_'): self.ev(st, 'value', eng.canon(st, args[1])); return [(st, I0)]
        if name == 'g_object_class_install_properties': raise AnalysisBroken("properties are installed at once")
        return CtxRule.on_call(self, eng, st, fr, name, args, node)
    nn = CtxRule.nn + ('object', 'spec', 'value')

def options(ctx, p, B, V):
    """what the functions of an option do; returns object -> locations"""
    loc = {}
    for n in FIELDS:
        f, l = getter_loc(p, 'milter_option_get_' + n, OPT)
        loc[n] = l
    if len({l(('sym', 'x', 'x', 0)) for l in loc.values()}) != 3: raise AnalysisBroken("the getters of an option share a field")
    def cases(fn):
        f = p.need(fn, OPT)
        eng = Engine(p, O(p, OPT))
        prm = [('sym', 'param', x['n'], n) for n, x in enumerate(f.params)]
        for st, v in eng.run(f):
            ctx.count("paths of an option's functions")
            yield f, eng, st, v, prm
        ctx.used(eng); ctx.count("functions of an option")
    def final(eng, st, o, n): return eng.canon(st, eng.read(st, loc[n](o)))
    def same(f, eng, st, o, but=()):
        for n in FIELDS:
            if n not in but and final(eng, st, o, n) != ('ld', loc[n](o)): V(f, "%s:%s" % (f.name, n), "%s changes the option's %s" % (f.name, n), st)
    def expect(f, eng, st, got, want, known, key, what):
        d = B.differ(st, got, want, known)
        if d: V(f, "%s:%s" % (f.name, key), "%s: %s isn't %s (%s)" % (f.name, key, what, B.show(p, d)), st)
    for n in ('step', 'action'):
        for op, want, what in (('add', lambda d, s: d | s, "what it was with what is added"), ('remove', lambda d, s: d & ~s, "what it was without what is removed"), ('set', lambda d, s: s, "what is set")):
            for f, eng, st, v, prm in cases('milter_option_%s_%s' % (op, n)):
                expect(f, eng, st, final(eng, st, prm[0], n), want, dict(d=('ld', loc[n](prm[0])), s=prm[1]), n, what)
                same(f, eng, st, prm[0], (n,))
    for f, eng, st, v, prm in cases('milter_option_set_version'):
        if final(eng, st, prm[0], 'version') != prm[1]: V(f, f.name + ":version", "%s doesn't set the version" % f.name, st)
        same(f, eng, st, prm[0], ('version',))
    for n, m in (('no_event', B.event), ('no_reply', B.reply), ('no', B.no), ('yes', B.yes)):
        for f, eng, st, v, prm in cases('milter_option_get_step_' + n):
            expect(f, eng, st, v, lambda d: d & m, dict(d=('ld', loc['step'](prm[0]))), "value", "the steps of that kind")
            same(f, eng, st, prm[0])
    merge = lambda d, s: (d & s & B.no) | ((d | s) & B.yes)
    for f, eng, st, v, prm in cases('milter_step_flags_merge'):
        expect(f, eng, st, v, merge, dict(d=prm[0], s=prm[1]), "value", "the NO steps of both and the other steps of either")
    for fn, w in (('combine', dict(step=lambda d, s: d & s, action=lambda d, s: d & s)), ('merge', dict(step=merge, action=lambda d, s: d | s))):
        seen = set()
        for f, eng, st, v, prm in cases('milter_option_' + fn):
            d, s = prm
            ld = {(o, n): ('ld', loc[n](o)) for o in prm for n in FIELDS}
            newer = eng.truth(st, ('op', '<', ld[d, 'version'], ld[s, 'version']))
            ok = eng.truth(st, v)
            same(f, eng, st, s)
            if newer is None or ok is None or newer == ok: V(f, f.name + ":newer", "%s doesn't refuse just the options of a newer version" % f.name, st); continue
            seen.add(ok)
            if not ok: same(f, eng, st, d); continue
            for n in ('step', 'action'): expect(f, eng, st, final(eng, st, d, n), w[n], dict(d=ld[d, n], s=ld[s, n]), n, "what both make")
            ver = final(eng, st, d, 'version')
            if fn == 'combine' and ver != eng.canon(st, ld[s, 'version']): V(f, f.name + ":version", "%s doesn't take the version agreed on" % f.name, st)
            if fn == 'merge' and ver != eng.canon(st, ld[d, 'version']): V(f, f.name + ":version", "%s changes the version" % f.name, st)
        if seen != {True, False}: raise AnalysisBroken("milter_option_%s isn't understood" % fn)
    # creation and copying
    props = {}
    for f, eng, st, v, prm in cases('milter_option_class_init'):
        for e in events(st, 'property'):
            if e[2][:2] == ('call', 'spec') and e[2][2][0] == 's': props[e[2][2][1]] = e[1]
    if set(props) != set(FIELDS): raise AnalysisBroken("properties of an option: %s" % sorted(props))
    for n, pid in props.items():
        for kind in ('set', 'get'):
            f = vfunc(p, OPT, kind + '_property')
            eng = Engine(p, O(p, OPT))
            obj, val = ('sym', 'param', f.params[0]['n'], 0), ('sym', 'param', f.params[2]['n'], 2)
            for st, v in eng.run(f, {f.params[1]['n']: pid}):
                ctx.count("properties of an option")
                if kind == 'set':
                    if final(eng, st, obj, n) != ('call', 'value', val): V(f, "set:" + n, "setting the property %s doesn't set it" % n, st)
                    same(f, eng, st, obj, (n,))
                elif [e[1] for e in events(st, 'value')] != [('ld', loc[n](obj))]: V(f, "get:" + n, "the property %s isn't what is read" % n, st)
            ctx.used(eng)
    for fn in ('copy', 'new'):
        for f, eng, st, v, prm in cases('milter_option_' + fn):
            src = {n: ('ld', loc[n](prm[0])) for n in FIELDS} if fn == 'copy' else {x['n']: q for x, q in zip(f.params, prm)}
            made = [dict(e[1]) for e in events(st, 'made')]
            if v == ('call', 'object') and len(made) == 1:
                got = dict(made[0])
                for n in FIELDS:
                    w = st.env.get(loc[n](v))
                    if w is not None: got[n] = eng.canon(st, w)
            else: got = {}
            for n in FIELDS:
                if got.get(n) != src[n]: V(f, "%s:%s" % (f.name, n), "%s makes an option with another %s" % (f.name, n), st)
    for f, eng, st, v, prm in cases('milter_option_equal'):
        eqs = [eng.truth(st, ('op', '==') + tuple(sorted((('ld', loc[n](prm[0])), ('ld', loc[n](prm[1]))), key=repr))) for n in FIELDS]
        t = eng.truth(st, v)
        if v[0] == 'op' and v[1] == '==':
            t = True
            eqs = [True if {v[2], v[3]} == {('ld', loc[n](prm[0])), ('ld', loc[n](prm[1]))} else q for n, q in zip(FIELDS, eqs)]
        if t is None or t != all(q for q in eqs) or (not t and False not in eqs): V(f, f.name, "milter_option_equal doesn't compare the version, the actions and the steps", st)
    return loc

class N(CtxRule):
    """the coordinator: an option is an object whose fields are followed"""
    block_cap = 400
    loc = None
    owner = None            # function -> whether it is looked into
    def inline(self, eng, f): return f.file == OPT or f.file == CH and self.owner(f)
    def jobs(self, st, eng):
        """what has been registered and not been looked at yet, with what the data holds"""
        out = []
        for e in st.mon:
            if e[0] == 'wait':
                keep = lambda l: l[0] == 'f' and l[1][0] == 'd' and (l[1][1] == e[2] or l[1][1][0] == 'priv' and l[1][1][2] == 'milteroption')
                d = tuple(sorted(((l, eng.canon(st, v)) for l, v in st.env.items() if keep(l)), key=repr))
                k = tuple(sorted(((t, c) for t, c in st.facts.items() if t[0] == 'ld' and t in self.given), key=repr))
                out.append((e[1], e[2], d, k))
        st.mon = tuple(e for e in st.mon if e[0] != 'wait')
        for j in out:
            self.todo.setdefault(j, st.trace)
    def at_loophead(self, eng, st, fr, b):
        if self.todo is not None: self.jobs(st, eng)
    todo, given = None, ()
    def on_call(self, eng, st, fr, name, args, node):
        C = lambda n: eng.canon(st, args[n])
        if name == 'milter_option_copy':
            src = C(0)
            vals = {n: eng.canon(st, eng.read(st, self.loc[n](src))) for n in FIELDS}
            if eng.truth(st, src) is False: return [(st, I0)]
            v = eng.fresh(st, fr, ('option', node['l']), 'option')
            eng.constrain(st, v, ne=0)
            for n in FIELDS: st.env[self.loc[n](v)] = vals[n]
            return [(st, v)]
        if name == 'milter_option_new':
            prm = [x['n'] for x in self.p.need(name, OPT).params]
            vals = {n: C(prm.index(n)) for n in FIELDS}
            v = eng.fresh(st, fr, ('option', node['l']), 'option')
            eng.constrain(st, v, ne=0)
            for n in FIELDS: st.env[self.loc[n](v)] = vals[n]
            return [(st, v)]
        if name == 'milter_option_new_empty': raise AnalysisBroken("an option is made by " + name)
        if name == 'milter_server_context_negotiate':
            o = C(1)
            self.ev(st, 'offer', C(0), o, tuple(eng.canon(st, eng.read(st, self.loc[n](o))) for n in FIELDS), node['l'])
            return [(st, I1)]
        if name == 'milter_macros_requests_merge': self.ev(st, 'macros', C(0), C(1)); return [(st, I0)]
        if name in ('g_signal_emit', 'g_signal_emit_by_name'):
            n = norm(args[1][1]) if args[1][0] == 's' else siglib.emitted(self.p, fr.fn.file, node)
            if n == 'negotiate-reply':
                k = 2 if name.endswith('by_name') else 3
                o = C(k)
                self.ev(st, 'answer', C(0), o, C(k + 1), tuple(eng.canon(st, eng.read(st, self.loc[x](o))) for x in FIELDS), node['l'])
            return [(st, I0)]
        if name in ('g_signal_connect_data', 'g_signal_connect_object'):
            if args[2][0] == 'fn': self.ev(st, 'wait', args[2][1], C(3))
            return [(st, I1)]
        m = re.match(r'milter_event_loop_add_(timeout|idle)', name)
        if m:
            n = {'timeout': 2, 'idle': 1}[m.group(1)] + (1 if name.endswith('_full') else 0)
            if args[n][0] == 'fn': self.ev(st, 'wait', args[n][1], C(n + 1))
            return [(st, self.unknown(eng, st, fr, node, 'id', lo=1))]
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
        if name == 'milter_server_context_establish_connection':
            s = st.copy(); return [(st, I1), (s, I0)]
        return None

def run(ctx):
    p = ctx.prog
    B = Bits(p)
    ctx.explanation = ("The functions of an option are interpreted abstractly and the flags they leave are compared, bit by bit for every combination of their operands, with the specified functions. "
        "The coordinator's negotiation, and the callbacks it registers, are followed with options as objects: what each child is offered, what is kept and what is answered are compared in the same way.")
    seen = set()
    def V(f, key, msg, st, line=None):
        if (f.key(), key) in seen: return
        seen.add((f.key(), key))
        ctx.violation("negotiation:%s" % key, f.file, line or f.line, "%s (path %s)" % (msg, trace_str(st.trace)))
    loc = options(ctx, p, B, V)
    N.loc = {n: staticmethod(l) for n, l in loc.items()}
    class Loc(dict): pass
    N.loc = loc
    fns = [f for f in p.fns.values() if f.file == CH]
    # where the coordinator keeps things
    optf, opt = getter_loc_any(p, loc)
    direct = {f.key() for f in fns if any(n in ('milter_server_context_negotiate', 'milter_server_context_establish_connection') for n, _ in f.callees) or emits(p, f)}
    reach = set(direct)
    while True:
        more = {f.key() for f in fns if f.key() not in reach and any(g.key() in reach for g in p.callees(f))}
        if not more: break
        reach |= more
    neg = p.need('milter_manager_children_negotiate', CH)
    hook = [p.resolve(h[0], CH) for h in connections(p, CH).get('negotiate-reply', [])]
    hook = [h for h in hook if h is not None]
    if len(hook) != 1: raise AnalysisBroken("handlers of a child's negotiate-reply: %s" % [h.name for h in hook])
    hook = hook[0]
    tmark = {f.key() for f in fns if f.nblocks <= 12 and any(n.startswith('milter_option_') for n, _ in f.callees)}
    makers = {f.key() for f in fns if any(n in ('g_signal_connect_data',) for n, _ in f.callees) and f.nblocks <= 12}
    for _ in range(2): makers |= {f.key() for f in fns if f.nblocks <= 6 and f.static and any(g.key() in makers for g in p.callees(f))}
    # ---- what the children are offered
    class NO(N):
        def __init__(s, todo): N.__init__(s, p, CH); s.todo, s.given = todo, set(G.values())
        def owner(s, f): return f.key() in makers or f.key() in tmark or (f.key() in reach and not emits(p, f) and f.key() not in fin) or (f.nblocks <= 8 and f.static and ('option' in f.fields_read | f.fields_written))
    fin = {f.key() for f in fns if emits(p, f)}
    while True:
        more = {f.key() for f in fns if f.key() not in fin and f.static and f.name != neg.name and not any(n in ('milter_server_context_negotiate', 'milter_server_context_establish_connection') for n, _ in f.callees) and any(g.key() in fin for g in p.callees(f))}
        if not more: break
        fin |= more
    me = ('sym', 'param', neg.params[0]['n'], 0)
    given = ('sym', 'param', neg.params[1]['n'], 1)
    todo = {}
    G = {n: ('ld', loc[n](given)) for n in FIELDS}
    eng = Engine(p, NO(todo))
    def setup(eng, st):
        eng.constrain(st, given, ne=0)
        for n in FIELDS: eng.constrain(st, ('ld', loc[n](given)), lo=0)
    ends = eng.run(neg, None, setup)
    ctx.used(eng)
    kept = set()
    nyes = {}
    for st, v in ends:
        eng.rule.jobs(st, eng)
        ctx.count("paths of the negotiation's start")
        o = eng.canon(st, eng.read(st, opt(me)))
        kept.add(o)
        check_content(ctx, p, B, eng, st, o, loc, G, neg, V, 'kept', "what is kept of it")
        for l, x in st.env.items():
            if l[0] == 'f' and l[1] == opt(me)[1] and l[2] != optf and B.differ(st, eng.canon(st, x), lambda d: d & B.yes, dict(d=G['step'])) == 0: nyes[l[2]] = nyes.get(l[2], 0) + 1
    initial = [n for n, k in nyes.items() if k == len(ends)]
    if len(initial) != 1: V(neg, "initial", "the steps the MTA offers to accept aren't remembered", ends[0][0]); initial = ['initial_yes_steps']
    done, offers, names = {}, 0, set()
    while todo:
        job, tr = todo.popitem()
        if job in done: continue
        done[job] = 1
        cb, data, env, facts = job
        if len(done) > 400: raise AnalysisBroken("too many callbacks")
        f = p.resolve(cb, CH)
        if f is None: raise AnalysisBroken("callback " + cb)
        if not (f.key() in reach): continue
        e2 = Engine(p, NO(todo))
        def setup2(eng, st):
            for l, v in env: st.env[l] = v
            for t, c in facts: st.facts[t] = c
            eng.constrain(st, given, ne=0)
        for st, v in e2.run(f, {f.params[-1]['n']: data}, setup2):
            ctx.count("paths of callbacks"); names.add(cb)
            e2.rule.jobs(st, e2)
            for e in events(st, 'offer'):
                offers += 1
                if any(e[2] == k for k in kept): V(f, "offer:shared:" + f.name, "%s: a child is offered the option which the replies of others change" % f.name, st, e[4])
                else:
                    for n, x in zip(FIELDS, e[3]):
                        d = content(B, e2, st, n, x, G, p)
                        if d: V(f, "offer:%s:%s" % (n, f.name), "%s: a child isn't offered the %s the MTA offered (%s)" % (f.name, n, d), st, e[4])
        ctx.used(e2)
    for n in sorted(names): ctx.sample("callback of the negotiation: " + n)
    ctx.count("offers", offers)
    ctx.floor("offers", 1)
    # ---- what is answered
    D = {n: ('sym', 'kept', n, 0) for n in FIELDS}
    Rr = {n: ('sym', 'replied', n, 0) for n in FIELDS}
    Q, I_ = ('sym', 'requested', 'steps', 0), ('sym', 'initial', 'steps', 0)
    KEPT, MAC = ('sym', 'kept', 'option', 0), ('sym', 'kept', 'macros', 0)
    class NA(N):
        def __init__(s): N.__init__(s, p, CH)
        def owner(s, f): return f.key() in fin or f.key() in tmark
    # which field collects the requested steps, which one the macros: asked of the handler
    cands = requested_field(p, hook, NA, loc, opt, B)
    if len(cands) != 1: raise AnalysisBroken("the steps requested by children are kept in %s" % sorted(cands))
    reqf = next(iter(cands))
    roots = [f for f in fns if f.key() in fin and not (f.static and f.name not in set().union(*(g.fnrefs for g in fns)))]
    answers = 0
    for f in sorted(roots, key=lambda f: f.name):
        heavy = f.key() not in direct and not f.static
        ishook = f.name == hook.name
        for has in (True, False):
            a = Engine(p, NA())
            base = None
            prm = [('sym', 'param', x['n'], n) for n, x in enumerate(f.params)]
            objs = children_of(p, f, prm)
            def setup3(eng, st):
                for o in objs:
                    b = opt(o)[1]
                    st.env[('f', b, optf)] = KEPT if has else I0
                    st.env[('f', b, reqf)] = Q
                    st.env[('f', b, initial[0])] = I_
                    for x in macrofields(p, hook): st.env[('f', b, x)] = MAC
                eng.constrain(st, KEPT, ne=0); eng.constrain(st, MAC, ne=0)
                for n in FIELDS: st.env[loc[n](KEPT)] = D[n]
                if ishook:
                    for n in FIELDS: st.env[loc[n](prm[1])] = Rr[n]
                    st.facts[('op', '<', D['version'], Rr['version'])] = (0, 0, frozenset())
            for st, v in a.run(f, None, setup3):
                ctx.count("paths which may answer")
                rep = ishook and has
                wstep = (lambda d, s: (d & s & B.no) | ((d | s) & B.yes)) if rep else (lambda d, s: d)
                wact = (lambda d, s: d | s) if rep else (lambda d, s: d)
                wreq = (lambda q, s: q | (s & B.yes)) if rep else (lambda q, s: q)
                ans = events(st, 'answer')
                if not has:
                    for e in ans: V(f, "unstarted:" + f.name, "%s answers a negotiation which hasn't been started" % f.name, st, e[5])
                    continue
                for e in ans:
                    answers += 1
                    if e[2] != KEPT and not (e[2][0] == 'sym' and e[2][-1].startswith('option')): V(f, "answer:option:" + f.name, "%s: the option answered isn't the one made of the replies" % f.name, st, e[5]); continue
                    if e[3] != MAC: V(f, "answer:macros:" + f.name, "%s: the macros answered aren't those the children request" % f.name, st, e[5])
                    x = dict(zip(FIELDS, e[4]))
                    d = B.differ(st, x['step'], lambda d, s, q, n: wstep(d, s) & ~B.event & ~(B.yes & ~(n & wreq(q, s))), dict(d=D['step'], s=Rr['step'], q=Q, n=I_))
                    if d: V(f, "answer:step:" + f.name, "%s: the steps answered aren't made of what the MTA offers and the children reply (%s)" % (f.name, B.show(p, d)), st, e[5])
                    d = B.differ(st, x['action'], wact, dict(d=D['action'], s=Rr['action']))
                    if d: V(f, "answer:action:" + f.name, "%s: the actions answered aren't those offered and those the children ask for" % f.name, st, e[5])
                    if x['version'] != a.canon(st, D['version']): V(f, "answer:version:" + f.name, "%s: the version answered isn't the one kept" % f.name, st, e[5])
                if rep and not ans:
                    if B.differ(st, a.canon(st, a.read(st, loc['step'](KEPT))), wstep, dict(d=D['step'], s=Rr['step'])): V(f, "merge:step", "%s doesn't merge the steps a child replies" % f.name, st)
                    if B.differ(st, a.canon(st, a.read(st, loc['action'](KEPT))), wact, dict(d=D['action'], s=Rr['action'])): V(f, "merge:action", "%s doesn't merge the actions a child replies" % f.name, st)
                    if B.differ(st, a.canon(st, st.env.get(('f', opt(prm[-1])[1], reqf), I0)), wreq, dict(q=Q, s=Rr['step'])): V(f, "merge:requested", "%s forgets the steps a child requests" % f.name, st)
                if rep:
                    m = events(st, 'macros')
                    t = a.truth(st, prm[2])
                    if t is not False and not any(e[1] == MAC and e[2] == prm[2] for e in m): V(f, "merge:macros", "%s: the macros a child requests aren't kept" % f.name, st)
                    ctx.count("replies merged")
            ctx.used(a)
        ctx.sample("answers: " + f.name)
    ctx.count("answers", answers)
    ctx.floor("answers", 3)
    ctx.floor("replies merged", 1)

def content(B, eng, st, n, x, G, p):
    """what is wrong with a field of an option made of the MTA's, or None"""
    if n == 'version':
        if x == eng.canon(st, G[n]):
            return None if eng.cons(st, x)[1] <= 6 else "a version this manager doesn't speak"
        if x[0] == 'i' and x[1] == 6 and eng.cons(st, G[n])[0] >= 6: return None
        return "another version"
    d = B.differ(st, x, lambda d: d, dict(d=G[n]))
    return B.show(p, d) if d else None

def check_content(ctx, p, B, eng, st, o, loc, G, f, V, key, what):
    for n in FIELDS:
        d = content(B, eng, st, n, eng.canon(st, eng.read(st, loc[n](o))), G, p)
        if d: V(f, "%s:%s" % (key, n), "%s: %s isn't the %s the MTA offers (%s)" % (f.name, what, n, d), st)

def emits(p, f):
    refs = {i: e['x'] for b, i, e in f.exprs() if e['k'] == 'ex'} if any(n.startswith('g_signal_emit') for n, _ in f.callees) else {}
    for n, node in f.callees:
        if n == 'g_signal_emit_by_name':
            a = siglib.strip(node['a'][1], refs)
            if a['k'] == 'str' and norm(a['v']) == 'negotiate-reply': return True
        elif n == 'g_signal_emit' and siglib.emitted(p, f.file, node) == 'negotiate-reply': return True
    return False

def getter_loc_any(p, loc):
    """the field in which the coordinator keeps the option: what its negotiation sets to an option"""
    f = p.need('milter_manager_children_negotiate', CH)
    class K(N):
        def inline(s, eng, g): return False
    r = K(p, CH); r.loc = loc
    out = set()
    class S(K):
        def on_store(s, eng, st, fr, l, val, node):
            val = eng.canon(st, val)
            if l[0] == 'f' and (val == ('sym', 'param', f.params[1]['n'], 1) or val[0] == 'sym' and val[-1].startswith('option')): out.add(l)
    s = S(p, CH); s.loc = loc
    Engine(p, s).run(f, None, lambda eng, st: eng.constrain(st, ('sym', 'param', f.params[1]['n'], 1), ne=0))
    names = {l[2] for l in out}
    if len(names) != 1: raise AnalysisBroken("the coordinator keeps the option in %s" % sorted(names))
    l = next(iter(out)); me = ('sym', 'param', f.params[0]['n'], 0)
    return l[2], lambda o: subst_any(l, me, o)

def requested_field(p, hook, NA, loc, opt, B):
    """fields of the coordinator which the handler of a reply changes by the reply's steps"""
    out = set()
    prm = [('sym', 'param', x['n'], n) for n, x in enumerate(hook.params)]
    src = ('ld', loc['step'](prm[1]))
    class S(NA):
        def on_store(s, eng, st, fr, l, val, node):
            if l[0] == 'f' and l[1] == opt(prm[-1])[1] and val_mentions(val, lambda x: x == src): out.add(l[2])
    Engine(p, S()).run(hook)
    return out

def macrofields(p, hook):
    out = set()
    fs = [f for f in p.fns.values() if f.file == CH and any(n == 'milter_macros_requests_merge' for n, _ in f.callees)]
    for f in fs:
        refs = {i: e['x'] for b, i, e in f.exprs() if e['k'] == 'ex'}
        for n, node in f.callees:
            if n == 'milter_macros_requests_merge':
                a = siglib.strip(node['a'][0], refs)
                if a['k'] == 'mem': out.add(a['f'])
    return out or {'macros_requests'}

def children_of(p, f, prm):
    """values which may be the coordinator"""
    out = list(prm)
    out += [('ld', ('f', ('d', x), 'children')) for x in prm]
    return out
