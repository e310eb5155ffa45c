"""C22: macros reach who needs them: kept by command, looked up in order, passed on to each child, requested for all of them."""
from ctxlib import *
from childrenlib import CH
from runner import pmap

PA, MR, UT = "milter/core/milter-protocol-agent.c", "milter/core/milter-macros-requests.c", "milter/core/milter-utils.c"
CMD = 'MILTER_COMMAND_'
ORDER = ['CONNECT', 'HELO', 'ENVELOPE_FROM', 'ENVELOPE_RECIPIENT', 'DATA', 'HEADER', 'END_OF_HEADER', 'BODY', 'END_OF_MESSAGE']
STAGE = ['CONNECT', 'HELO', 'ENVELOPE_FROM', 'ENVELOPE_RECIPIENT', 'DATA', 'END_OF_MESSAGE', 'END_OF_HEADER']     # SMFIM_* of libmilter
EQUAL = {'strcmp', 'g_strcmp0', 'g_utf8_collate'}

def P(f): return [('sym', 'param', x['n'], n) for n, x in enumerate(f.params)]
def undup(v): return v[2] if v[:2] == ('call', 'dup') else None

class Mac(CtxRule):
    """mon: events; lists are chains of nodes in the environment"""
    present = None          # command -> whether a table is there
    def inline(self, eng, f): return f.file == self.file and f.name not in self.stop
    def widen_key(self, eng, st, fr): return None if self.exact else CtxRule.widen_key(self, eng, st, fr)
    exact = True
    def node(self, st, data):
        n = ('sym', 'node', '#n', sum(1 for e in st.mon if e[0] == 'node')); st.mon += (('node', n),)
        st.facts[n] = (1, INF, frozenset())
        st.env[('f', ('d', n), 'data')] = data; st.env[('f', ('d', n), 'next')] = I0
        return n
    def chain(self, st, *data):
        ns = [self.node(st, d) for d in data]
        for a, b in zip(ns, ns[1:]): st.env[('f', ('d', a), 'next')] = b
        return ns[0] if ns else I0
    def nodes(self, st, v):
        out = []
        while v[0] == 'sym' and v[1] == 'node' and v not in out:
            out.append(v); v = st.env.get(('f', ('d', v), 'next'), I0)
        return out
    def items(self, st, v): return [st.env.get(('f', ('d', n), 'data')) for n in self.nodes(st, v)]
    def on_call(self, eng, st, fr, name, args, node):
        a = tuple(eng.canon(st, x) for x in args)
        b = name.replace('_inline', '')
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
        if name in self.consts: return self.consts[name](self, eng, st, fr, a, node)
        if name in ('g_hash_table_lookup',):
            if self.present is not None and a[1][0] == 'i':
                if not self.present.get(a[1][1]): self.ev(st, 'look', a[0], a[1], I0); return [(st, I0)]
                v = ('sym', 'table', '#%d' % a[1][1], 0); st.facts[v] = (1, INF, frozenset())
                self.ev(st, 'look', a[0], a[1], v); return [(st, v)]
            v = self.unknown(eng, st, fr, node, 'found'); s = st.copy()
            eng.constrain(st, v, ne=0); eng.constrain(s, v, eq=0)
            self.ev(st, 'look', a[0], a[1], v); self.ev(s, 'look', a[0], a[1], I0)
            return [(st, v), (s, I0)]
        if name in ('g_hash_table_insert', 'g_hash_table_replace'): self.ev(st, 'put', a[0], a[1], a[2]); return [(st, I1)]
        if name == 'g_hash_table_remove': self.ev(st, 'drop', a[0], a[1]); return [(st, I1)]
        if name == 'g_hash_table_remove_all': self.ev(st, 'empty', a[0]); return [(st, I1)]
        if name in ('g_hash_table_new_full', 'g_hash_table_new'):
            v = self.unknown(eng, st, fr, node, 'newtable', ne=0); self.ev(st, 'made', v); return [(st, v)]
        if name in ('g_hash_table_unref', 'g_hash_table_destroy'): return [(st, I0)]
        if name == 'g_hash_table_foreach': self.ev(st, 'each', a[0], a[1], a[2], frozenset((l, eng.canon(st, x)) for l, x in st.env.items() if a[2][0] == '&' and l[0] == 'f' and l[1] == a[2][1])); return [(st, I0)]
        if name == 'milter_utils_merge_hash_string_string' and self.file != UT: self.ev(st, 'merged', a[0], a[1]); return [(st, I0)]
        if name == 'g_hash_table_iter_init':
            self.ev(st, 'iter', a[0], a[1]); return [(st, I0)]
        if name == 'g_hash_table_iter_next':
            it = [e for e in events(st, 'iter') if e[1] == a[0]]
            if not it or ('stepped', a[0]) in st.mon: return [(st, I0)]
            s = st.copy(); self.ev(s, 'stepped', a[0]); self.ev(st, 'stepped', a[0])
            for k, x in enumerate(a[1:]):
                v = ('sym', 'entry', it[-1][2], k); st.facts[v] = (1, INF, frozenset()); self.set_out(eng, st, fr, x, v)
            return [(st, I1), (s, I0)]
        if name in ('g_list_append', 'g_slist_append'):
            ns = self.nodes(st, a[0]); n = self.node(st, a[1])
            if not ns: return [(st, n)]
            st.env[('f', ('d', ns[-1]), 'next')] = n
            return [(st, a[0])]
        if name == 'g_list_prepend':
            n = self.node(st, a[1]); st.env[('f', ('d', n), 'next')] = a[0]; return [(st, n)]
        if name == 'g_list_concat':
            ns = self.nodes(st, a[0])
            if not ns: return [(st, a[1])]
            st.env[('f', ('d', ns[-1]), 'next')] = a[1]; return [(st, a[0])]
        if name == 'g_list_reverse': return [(st, self.chain(st, *reversed(self.items(st, a[0]))))]
        if name == 'g_list_copy': return [(st, self.chain(st, *self.items(st, a[0])))]
        if name == 'g_list_copy_deep' and a[1][0] == 'fn' and a[1][1] == 'g_strdup': return [(st, self.chain(st, *[('call', 'dup', x) for x in self.items(st, a[0])]))]
        if name == 'g_list_find_custom':
            s = st.copy(); its = self.items(st, a[0])
            if not its: return [(st, I0)]
            for x in its: self.ev(s, 'differs', a[1], undup(x) or x, a[2])
            self.ev(st, 'same', a[1], a[2], tuple(undup(x) or x for x in its))
            return [(st, self.nodes(st, a[0])[0]), (s, I0)]
        if name in EQUAL | {'g_str_equal'}:
            x, y = (undup(z) or z for z in a[:2]); s = st.copy()
            self.ev(st, 'same', x, ('fn', name), (y,)); self.ev(st, 'same', y, ('fn', name), (x,))
            self.ev(s, 'differs', x, y, ('fn', name)); self.ev(s, 'differs', y, x, ('fn', name))
            k = name == 'g_str_equal'
            return [(st, I1 if k else I0), (s, I0 if k else I1)]
        if b in ('g_strndup',): return [(st, ('call', 'part', a[0], a[1]))]
        if b in ('g_strdup',): return [(st, I0 if a[0] == I0 else ('call', 'dup', a[0]))]
        if name == 'strlen': return [(st, ('call', 'strlen', a[0]))]
        if name in ('g_str_has_prefix', 'g_str_has_suffix'):
            s = st.copy(); self.ev(st, name[10:], a[0], a[1], True); self.ev(s, name[10:], a[0], a[1], False)
            return [(st, I1), (s, I0)]
        if name in ('memcmp', 'strncmp', '__builtin_memcmp', '__builtin_strncmp') and a[2] == I1 and any(x[0] == 's' for x in a[:2]):
            x, y = a[:2] if a[1][0] == 's' else a[1::-1]; s = st.copy()
            own, kind = (x, 'prefix') if x[0] == 'sym' else (next((z for z, c in lin(x) if z is not None and z[0] == 'sym' and lin(x) == lin(('op', '-', ('op', '+', z, ('call', 'strlen', z)), I1))), x), 'suffix')
            self.ev(st, kind, own, y, True); self.ev(s, kind, own, y, False)
            v = self.unknown(eng, s, fr, node, 'differs', ne=0)
            return [(st, I0), (s, v)]
        if name == 'g_free': return [(st, I0)]
        if name.startswith('*'):
            self.ev(st, 'called', eng.canon(st, eng.ev(st, fr, node['f'])), a); return [(st, I0)]
        return None
    nn = CtxRule.nn + ('dup', 'part')

def run(ctx):
    p = ctx.prog
    E = p.enum
    ctx.explanation = ("Each function which keeps, looks up, clears or hands on macros and macro requests is interpreted with its tables and lists modelled: which table is put where under which command, in which order tables are merged "
        "for each command, what a request list holds after a merge. Which children are handed the macros is enumerated over the states a child can be in.")
    seen = set()
    def V(f, key, msg, st=None):
        if (f.key(), key) in seen: return
        seen.add((f.key(), key))
        ctx.violation("%s:%s" % (f.name, key), f.file, f.line, "%s: %s%s" % (f.name, msg, " (path %s)" % trace_str(st.trace) if st else ""))
    def go(name, file, args=None, setup=None, rule=None, **k):
        f = p.need(name, file) if isinstance(name, str) else name
        r = rule or Mac(p, f.file, **k)
        eng = Engine(p, r, budget=400000)
        q = P(f)
        out = eng.run(f, {f.params[n]['n']: v for n, v in (args or {}).items()}, lambda e, s: (e.constrain(s, q[0], ne=0) if 'Milter' in f.params[0]['t'] and '*' in f.params[0]['t'] else None, setup(e, s) if setup else None))
        ctx.used(eng); ctx.count("functions interpreted"); ctx.count("paths", len(out))
        if not out: raise AnalysisBroken("%s has no path" % f.name)
        return f, q, eng, out
    # what a callback puts into its table
    copier = {}
    def copies(fn, file):
        """whether a callback for g_hash_table_foreach puts a copy of the entry into the table it is given"""
        if fn not in copier:
            g = p.resolve(fn, file)
            if g is None: copier[fn] = "isn't known"
            else:
                f, q, eng, out = go(g, file, setup=lambda e, s: [e.constrain(s, x, ne=0) for x in P(g)])
                bad = None
                for st, v in out:
                    if [e[1:] for e in events(st, 'put')] != [(q[2], ('call', 'dup', q[0]), ('call', 'dup', q[1]))] or events(st, 'drop', 'empty'): bad = "doesn't put a copy of each entry into the table"
                if bad: V(g, 'copy', bad)
                copier[fn] = bad
        return copier[fn]
    def copied(st, dst, file):
        """tables whose entries are copied into dst, in order"""
        out = []
        for e in st.mon:
            if e[0] == 'merged' and e[1] == dst: out.append(e[2])
            if e[0] == 'each' and e[3] == dst and e[2][0] == 'fn' and not copies(e[2][1], file): out.append(e[1])
            if e[0] == 'put' and e[1] == dst and (undup(e[2]) or I0)[:2] == ('sym', 'entry') and e[3] == ('call', 'dup', undup(e[2])[:3] + (1,)): out.append(undup(e[2])[2])
        return out
    # ---- the agent's fields
    f, q, eng, out = go('milter_protocol_agent_set_macro_context', PA)
    cf = {l for st, v in out for l, x in st.env.items() if l[0] == 'f' and x == q[1]}
    if len(cf) != 1: raise AnalysisBroken("the macro context isn't kept in one field")
    cf = cf.pop(); base = cf[1]; me = q[0]
    f2, q2, e2, out2 = go('milter_protocol_agent_get_macros', PA, stop=['milter_protocol_agent_get_available_macros'])
    fc, qc, ec, outc = go('milter_protocol_agent_clear_macros', PA)
    tb = {subst_any(e[1], qc[0], me) for st, v in outc for e in events(st, 'drop')}
    if len(tb) != 1 or next(iter(tb))[0] != 'ld': raise AnalysisBroken("the tables of macros aren't kept in one field")
    tables = tb.pop()
    for st, v in out2:
        l = events(st, 'look')
        if len(l) != 1 or l[0][1] != tables or l[0][2] != ('ld', cf) or v != l[0][3]: V(f2, 'current', "isn't the table of the current command", st)
    avail = p.need('milter_protocol_agent_get_available_macros', PA)
    q = P(avail)
    glob = p.globals.get((PA, 'macro_search_order')) or next((g for (fl, n), g in p.globals.items() if fl == PA and g.get('x', {}).get('k') == 'init' and 'MilterCommand' in g.get('t', '')), None)
    def consts(eng, st):
        for (fl, n), g in p.globals.items():
            if fl == PA and (g.get('x') or {}).get('k') == 'init' and re.search(r'MilterCommand.*\[', g.get('t', '')):
                vals = [x.get('v') for x in g['x']['a']]
                for k in range(len(vals)):
                    if vals[k] is not None:
                        for b in (('g', n), ('v', n), ('g', fl, n)): st.env[('x', b, I(k))] = I(vals[k])
    cache = set()
    r = Mac(p, PA); r.present = {E(CMD + n): 0 for n in ORDER}
    f, q, eng, out = go(avail, PA, setup=lambda e, s: (consts(e, s), s.env.__setitem__(cf, I(E(CMD + 'CONNECT')))), rule=r)
    for st, v in out:
        if v[0] == 'ld' and not events(st, 'put', 'merged', 'made'): cache.add(v[1])
    if len(cache) != 1: raise AnalysisBroken("the macros available aren't kept in one field")
    cache = cache.pop()
    def clean(f, st, eng):
        if eng.truth(st, eng.read(st, cache)) is not False: V(f, 'stale', "macros looked up before are still used after a change", st)
        ctx.count("changes")
    f, q, eng, out = go('milter_protocol_agent_set_macro_context', PA)
    for st, v in out: clean(f, st, eng)
    # ---- which are available
    cmds = {n: E(CMD + n) for n in ORDER + ['UNKNOWN', 'NEGOTIATE', 'ABORT', 'QUIT']}
    for cur in cmds:
        stop = ORDER.index(cur) + 1 if cur in ORDER else len(ORDER)
        for there in [set(ORDER), set()] + [set(ORDER) - {n} for n in ORDER] + [{n} for n in ORDER]:
            r = Mac(p, PA); r.present = {cmds[n]: n in there for n in ORDER}
            f, q, eng, out = go(avail, PA, setup=lambda e, s: (consts(e, s), s.env.__setitem__(cf, I(cmds[cur])), s.env.__setitem__(cache, I0)), rule=r)
            want = [('sym', 'table', '#%d' % cmds[n], 0) for n in ORDER[:stop] if n in there]
            for st, v in out:
                ctx.count("lookups of what is available")
                if not any(e == ('made', v) for e in st.mon) or eng.canon(st, eng.read(st, cache)) != v: V(f, 'kept', "the macros available aren't collected in a new table which is kept and returned", st)
                elif copied(st, v, PA) != want: V(f, 'order', "the macros available while %s is processed aren't those of the commands up to it, the later ones first" % cur.lower(), st)
                if any(e[1] != tables for e in events(st, 'look')): V(f, 'table', "macros come from elsewhere", st)
    # ---- lookup
    f, q, eng, out = go('milter_protocol_agent_get_macro', PA, stop=['milter_protocol_agent_get_available_macros'], setup=lambda e, s: None, consts={'milter_protocol_agent_get_available_macros': lambda r, eng, st, fr, a, n: [(st, ('sym', 'available', '#t', 0))]})
    tried = set()
    for st, v in out:
        ls = events(st, 'look')
        if eng.truth(st, q[1]) is False:
            if v != I0: V(f, 'null', "no name gives a macro", st)
            continue
        if not ls or ls[0][1] != ('sym', 'available', '#t', 0) or ls[0][2] != q[1]: V(f, 'name', "the macro isn't looked for by its name first", st); continue
        if ls[0][3] != I0:
            if v != ls[0][3]: V(f, 'value', "the value found isn't the one returned", st)
            continue
        br = [e for e in events(st, 'prefix', 'suffix') if e[1] == q[1]]
        yes = {e[0] for e in br if e[3] and e[2] == ('s', '{' if e[0] == 'prefix' else '}')}
        no = any(not e[3] for e in br)
        if len(ls) > 1:
            want = ('call', 'part', ('op', '+', q[1], I1), None)
            k = ls[1][2]
            ok = k[:2] == ('call', 'part') and lin(k[2]) == lin(('op', '+', q[1], I1)) and lin(k[3]) == lin(('op', '-', ('call', 'strlen', q[1]), I(2))) and ls[1][1] == ls[0][1]
            if not ok: V(f, 'unbraced', "the name in braces isn't looked for without them", st)
            unseen = {'prefix', 'suffix'} - yes
            if no or unseen and not any(val_mentions(x, lambda y: y[:1] == ('ld',) and y[1][0] in 'xd' and val_mentions(y[1], lambda z: z == q[1])) for x in st.facts): V(f, 'braces', "a name without braces is cut", st)
            if v != ls[1][3]: V(f, 'value', "the value found isn't the one returned", st)
            tried.add(True)
        else:
            if yes == {'prefix', 'suffix'}: V(f, 'unbraced', "the name in braces isn't looked for without them", st)
            if v != I0: V(f, 'value', "a value is returned though none was found", st)
    if not tried: V(f, 'unbraced', "a name in braces is never looked for without them")
    # ---- changes
    f, q, eng, out = go('milter_protocol_agent_clear_macros', PA)
    for st, v in out:
        clean(f, st, eng)
        if [e[1:] for e in events(st, 'drop')] != [(tables, q[1])] or events(st, 'empty', 'put'): V(f, 'clear', "the macros of exactly this command aren't dropped", st)
    f, q, eng, out = go('milter_protocol_agent_clear_message_related_macros', PA, setup=consts)
    for st, v in out:
        clean(f, st, eng)
        if sorted((e[1], e[2][-1]) for e in events(st, 'drop')) != sorted((tables, cmds[n]) for n in ORDER[2:]) or events(st, 'empty', 'put'): V(f, 'clear', "the macros of exactly the message's commands aren't dropped", st)
    def inner(f, q, st):
        """the table of the command"""
        ls = [e for e in events(st, 'look') if e[1] == tables]
        put = [e for e in events(st, 'put') if e[1] == tables]
        if any(e[2] != q[1] for e in ls + put): V(f, 'command', "macros are kept under another command", st)
        if put:
            if len(put) > 1 or ('made', put[0][3]) not in st.mon: V(f, 'command', "macros are kept under another command", st)
            return put[-1][3], True, bool(ls) and any(e[3] != I0 for e in ls)
        return (ls[-1][3], False, True) if ls and ls[-1][3] != I0 else (None, False, False)
    f, q, eng, out = go('milter_protocol_agent_set_macro', PA)
    for st, v in out:
        clean(f, st, eng)
        t, new, lost = inner(f, q, st)
        if t is None or new and lost: V(f, 'others', "the other macros of the command are lost", st); continue
        puts, drops = [e[1:] for e in events(st, 'put') if e[1] != tables], [e[1:] for e in events(st, 'drop')]
        if eng.truth(st, q[3]) is not False:
            if puts != [(t, ('call', 'dup', q[2]), ('call', 'dup', q[3]))] or drops and drops != [(t, q[2])]: V(f, 'set', "the macro isn't set to its value", st)
        elif puts or drops != [(t, q[2])] and not (new and not drops): V(f, 'unset', "a macro without value isn't removed", st)
    class L(Mac):
        exact = False; limit = 1
        def at_loophead(self, eng, st, fr, b):
            out = []
            for e in st.mon:
                e = ('wrote' if e[0] == 'put' else 'dropped', e[1]) if e[0] in ('put', 'drop') and e[1] != tables else e
                if e not in out: out.append(e)
            st.mon = tuple(out)
    f, q, eng, out = go('milter_protocol_agent_set_macros', PA, rule=L(p, PA))
    some = 0
    for st, v in out:
        clean(f, st, eng)
        t, new, lost = inner(f, q, st)
        if t is None or new and lost: V(f, 'others', "the other macros of the command are lost", st); continue
        bad = [e for e in st.mon if e[0] in ('put', 'drop', 'wrote', 'dropped') and e[1] not in (t, tables)]
        if bad: V(f, 'set', "macros are kept elsewhere", st)
        some += any(e[0] in ('put', 'wrote') and e[1] == t for e in st.mon)
    if not some: V(f, 'set', "no macro is ever set")
    f, q, eng, out = go('milter_protocol_agent_set_macros_hash_table', PA)
    for st, v in out:
        clean(f, st, eng)
        t, new, had = inner(f, q, st)
        if t is None: V(f, 'table', "the macros aren't kept under their command", st); continue
        if not new and ('empty', t) not in st.mon: V(f, 'rest', "macros which were defined before stay", st)
        if copied(st, t, PA) != [q[2]] and not ((eng.truth(st, q[2]) is False or ('iter' in {e[0] for e in st.mon})) and not copied(st, t, PA)): V(f, 'copy', "the macros defined aren't copied to the command's table", st)
    # ---- helpers
    f, q, eng, out = go('milter_utils_merge_hash_string_string', UT)
    for st, v in out:
        c = copied(st, q[0], UT)
        if c != [q[1]] and not (eng.truth(st, q[1]) is False and not c) and not (events(st, 'iter') and not c): V(f, 'merge', "not every entry of the second table is put into the first", st)
    to, back = p.need('milter_utils_command_to_macro_stage', UT), p.need('milter_utils_macro_stage_to_command', UT)
    allc = enum_values(p, CMD)
    for val, n in allc:
        f, q, eng, out = go(to, UT, {0: I(val)}); n = n[len(CMD):]
        want = STAGE.index(n) if n in STAGE else -1
        for st, v in out:
            ctx.count("stages")
            got = v[1] if v[0] == 'i' else None
            if got is not None and got >= 2**31: got -= 2**32
            if got != want: V(f, 'stage-' + n, "%s isn't stage %d of the protocol" % (n.lower(), want))
    for k in range(len(STAGE)):
        f, q, eng, out = go(back, UT, {0: I(k)})
        want = E(CMD + STAGE[k]) if 0 <= k < len(STAGE) else 0
        for st, v in out:
            if v != I(want): V(f, 'stage%d' % k, "stage %d isn't the command it stands for" % k)
    # ---- requests
    f, q, eng, out = go('milter_macros_requests_get_symbols', MR)
    rt = {e[1] for st, v in out for e in events(st, 'look')}
    if len(rt) != 1: raise AnalysisBroken("the requests aren't kept in one table")
    rt = rt.pop()
    for st, v in out:
        l = events(st, 'look')
        if len(l) != 1 or l[0][2] != q[1] or v != l[0][3]: V(f, 'symbols', "aren't those of the command", st)
    S = [('sym', 'symbol', '#%d' % k, 0) for k in range(5)]
    for n in range(4):
        fa = p.need('milter_macros_requests_set_symbols_string_array', MR); q = P(fa)
        def arr(e, s):
            for k in range(n + 1):
                s.env[('x', ('d', q[2]), I(k))] = S[k] if k < n else I0
                if k == 0: s.env[('d', q[2])] = S[0] if n else I0
            for x in S: e.constrain(s, x, ne=0)
        f, q, eng, out = go(fa, MR, setup=arr)
        for st, v in out:
            ctx.count("lists of symbols")
            pu = events(st, 'put')
            if len(pu) != 1 or pu[0][1] != rt or pu[0][2] != q[1] or eng.rule.items(st, pu[0][3]) != [('call', 'dup', x) for x in S[:n]]: V(f, 'set', "the command's symbols aren't copied in order", st)
    # each: the function gets every command with its symbols
    f, q, eng, out = go('milter_macros_requests_foreach', MR)
    for st, v in out:
        ea, it = events(st, 'each'), events(st, 'iter')
        if it:
            if len(it) != 1 or it[0][2] != rt or [e for e in events(st, 'called') if e[1] != q[1] or e[2] != (('sym', 'entry', rt, 0), ('sym', 'entry', rt, 1), q[2])]: V(f, 'each', "the function isn't called with each command, its symbols and the data", st)
            continue
        if len(ea) != 1 or ea[0][1] != rt or ea[0][2][0] != 'fn': V(f, 'each', "not every request is visited", st); continue
        g = p.resolve(ea[0][2][1], MR); gq = P(g); d = ea[0][3]
        f3, q3, e3, out3 = go(g, MR, {2: ('sym', 'param', '#data', 80)}, setup=lambda e, s: s.env.update({('f', ('d', ('sym', 'param', '#data', 80)), l[2]): x for l, x in ea[0][4]}))
        for s3, v3 in out3:
            c = events(s3, 'called')
            if len(c) != 1 or c[0][1] != q[1] or c[0][2] != (q3[0], q3[1], q[2]): V(g, 'each', "the function isn't called once with each command, its symbols and the data", s3)
    # merging
    f, q, eng, out = go('milter_macros_requests_merge', MR, stop=['milter_macros_requests_foreach'], consts={'milter_macros_requests_foreach': lambda r, eng, st, fr, a, n: (r.ev(st, 'each', a[0], a[1], a[2]), [(st, I0)])[1]})
    for st, v in out:
        ea = events(st, 'each')
        dest = subst_any(rt, ('sym', 'param', p.need('milter_macros_requests_get_symbols', MR).params[0]['n'], 0), q[0])
        if len(ea) != 1 or ea[0][1] not in (q[1], subst_any(rt, ('sym', 'param', p.need('milter_macros_requests_get_symbols', MR).params[0]['n'], 0), q[1])) or ea[0][2][0] != 'fn': V(f, 'merge', "not every request of the second is visited", st); continue
        if ea[0][3] not in (dest, q[0]): V(f, 'merge', "the requests are merged into something else", st); continue
        g = p.resolve(ea[0][2][1], MR); gq = P(g)
        A, B = [('sym', 'symbol', '#a%d' % k, 0) for k in range(2)], [('sym', 'symbol', '#b%d' % k, 0) for k in range(3)]
        for na in range(3):
            for nb in range(4):
                class R(Mac):
                    def on_call(self, eng, st, fr, name, args, node):
                        if name == 'g_hash_table_lookup':
                            self.ev(st, 'look', *[eng.canon(st, x) for x in args])
                            return [(st, ('sym', 'node', '#n', 0) if na else I0)]
                        return Mac.on_call(self, eng, st, fr, name, args, node)
                r = R(p, MR)
                holder = {}
                def lists(e, s):
                    for x in A + B: e.constrain(s, x, ne=0)
                    r.chain(s, *A[:na]); holder['b'] = r.chain(s, *B[:nb])
                    s.env[('p', gq[1][2])] = holder['b']
                # the nodes are numbered as they are made: the second list starts behind the first
                f4, q4, e4, out4 = go(g, MR, {1: ('sym', 'node', '#n', na) if nb else I0}, setup=lists, rule=r)
                for s4, v4 in out4:
                    ctx.count("merges")
                    l, pu = events(s4, 'look'), events(s4, 'put')
                    if len(pu) != 1 or pu[0][2] != gq[0] or any(x[2] != gq[0] for x in l) or {x[1] for x in l + pu} != {gq[2]} and {x[1] for x in l + pu} != {subst_any(rt, ('sym', 'param', p.need('milter_macros_requests_get_symbols', MR).params[0]['n'], 0), gq[2])}:
                        if not (not nb and not pu): V(g, 'merge', "the merged symbols aren't kept under their command", s4)
                        continue
                    want = list(A[:na])
                    for b in B[:nb]:
                        same = [e for e in events(s4, 'same') if (undup(e[1]) or e[1]) == b]
                        if any(e[2][0] == 'fn' and e[2][1] in EQUAL | {'g_str_equal'} for e in same): continue
                        diff = {e[2] for e in events(s4, 'differs') if (undup(e[1]) or e[1]) == b and e[3][0] == 'fn' and e[3][1] in EQUAL | {'g_str_equal'}}
                        if any(x not in diff for x in want): V(g, 'twice', "a symbol may be requested twice, or isn't compared as it is", s4)
                        want.append(b)
                    got = [undup(x) for x in r.items(s4, pu[0][3])]
                    if got != want: V(g, 'merge', "the symbols requested by both aren't kept, each once (%d and %d symbols)" % (na, nb), s4)
    # ---- to the children
    f = p.need('milter_manager_children_define_macro', CH); q = P(f)
    K = [('sym', 'child', '#%d' % k, 0) for k in range(2)]
    ml = getter_loc_of(p, f)
    class C(Mac):
        def on_call(self, eng, st, fr, name, args, node):
            a = tuple(eng.canon(st, x) for x in args)
            if name in ('milter_server_context_is_negotiated', 'milter_server_context_is_quitted', 'milter_server_context_is_processing_message'):
                n, qq, pm = self.state[K.index(a[0])] if a[0] in K else (1, 0, 1)
                return [(st, I({'d': n, 'g': n}[name[-1]] if name.endswith('negotiated') else qq if name.endswith('quitted') else int(n and not qq and pm)))]
            if name.startswith('milter_protocol_agent_set_macro'): self.ev(st, 'define', name, a); return [(st, I0)]
            return Mac.on_call(self, eng, st, fr, name, args, node)
    import itertools
    states = list(itertools.product((0, 1), repeat=3))
    for val, n in allc:
        n = n[len(CMD):]
        if n not in ORDER + ['UNKNOWN']: continue
        for s0 in states:
            r = C(p, CH); r.state = [s0, (1, 0, 1)]
            _, _, eng, out = go(f, CH, {1: I(val)}, setup=lambda e, s: ([e.constrain(s, x, ne=0) for x in K], s.env.__setitem__(ml(q[0]), r.chain(s, *K))), rule=r)
            for st, v in out:
                ctx.count("definitions handed on")
                d = [e for e in events(st, 'define')]
                if any(e[1] != 'milter_protocol_agent_set_macros_hash_table' or e[2][1:] != (I(val), q[2]) or e[2][0] not in K for e in d): V(f, 'same', "a child isn't given the same macros for the same command", st); continue
                got = [sum(1 for e in d if e[2][0] == k) for k in K]
                N, Q, M = s0
                reach = N and not Q and (M or n not in ORDER[3:])
                if got[1] != 1 or reach and got[0] != 1: V(f, 'all', "not every child the command is sent to is given its macros once (%s)" % n.lower(), st)
                if n in ORDER[3:] and got[0] and not reach: V(f, 'only', "a child which doesn't process the message is given its macros (%s)" % n.lower(), st)
    # ---- from the children
    from childrenlib import handler
    h = handler(p, CH, 'negotiate-reply')
    near = reaching(p, CH, {'milter_macros_requests_merge'})
    class N(Mac):
        def inline(self, eng, f): return f is h or f.key() in near
        def on_call(self, eng, st, fr, name, args, node):
            if name == 'milter_macros_requests_merge': self.ev(st, 'merge', *[eng.canon(st, x) for x in args]); return [(st, I0)]
            if name.startswith(('g_signal_', 'milter_')) and not name.endswith('get_type') and not any(g.key() in near for g in p.byname[name]): return [(st, self.unknown(eng, st, fr, node, name))]
            return Mac.on_call(self, eng, st, fr, name, args, node)
    f, q, eng, out = go(h, CH, rule=N(p, CH))
    for st, v in out:
        m = events(st, 'merge'); t = eng.truth(st, q[2])
        if t is False and m or t is not False and (len(m) != 1 or m[0][2] != q[2] or m[0][1][0] != 'ld' or m[0][1][1][2] != 'macros_requests' and not val_mentions(m[0][1], lambda x: x == q[3])): V(h, 'requests', "a child's macro requests aren't merged into those of all children", st)
    ctx.floor("lookups of what is available", 200); ctx.floor("merges", 12); ctx.floor("definitions handed on", 80); ctx.floor("changes", 8); ctx.floor("stages", 10)

def getter_loc_of(p, f):
    """where the list of children is kept: the list walked by the function"""
    class R(CtxRule):
        def inline(self, eng, g): return g.static and g.file == f.file
        def on_load(self, eng, st, fr, loc, node):
            if loc[0] == 'f' and loc[2] == 'data' and loc[1][0] == 'd' and loc[1][1][0] == 'ld' and loc[1][1][1][0] == 'f': found.add(loc[1][1][1])
    found = set()
    eng = Engine(p, R(p, f.file))
    me = ('sym', 'param', f.params[0]['n'], 0)
    eng.run(f, {f.params[1]['n']: I(p.enum('MILTER_COMMAND_UNKNOWN'))}, lambda e, s: e.constrain(s, me, ne=0))
    found = {l for l in found if l[2] not in ('next', 'prev')}
    if len(found) != 1: raise AnalysisBroken("the list of children isn't found: %s" % found)
    l = found.pop()
    return lambda obj: subst_any(l, me, obj)
