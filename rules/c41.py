"""C41: every signal is declared, emitted and listened to with the same arguments, and reaches its own class slot."""
from ctxlib import *

INT4 = {'int', 'unsigned int', 'gboolean', 'char', 'unsigned char', 'signed char', 'short', 'unsigned short', '_Bool'}
INT8 = {'long', 'unsigned long', 'long long', 'unsigned long long'}
FUND = {16: ('ptr', 'char'), 17: ('ptr', None), 11: ('8',), 10: ('8',), 8: ('8',), 9: ('8',), 7: ('4',), 6: ('4',), 5: ('4',), 12: ('4',), 13: ('4',),
        20: ('ptr', '_GObject'), 18: ('ptr', None), 14: ('f',), 15: ('f',), 1: ('void',), 3: ('4',), 4: ('4',), 19: ('ptr', None)}

class Types:
    def __init__(self, p):
        self.p = p
        d = p.data
        self.parent, self.names = {}, set()
        for (f, n), r in d['records'].items():
            self.names.add(n)
            if r['fields']:
                m = re.match(r'struct (_?\w+)$', r['fields'][0]['t'])
                if m: self.parent[n] = m.group(1)
        self.enums = {n for (f, n, k) in d['enums']}
        self.low = {n.lstrip('_').lower(): n for n in self.names}
        self.elow = {n.lstrip('_').lower(): n.lstrip('_') for n in self.enums if n}
    def of_get_type(self, name):
        """what an argument of the type of a X_get_type function looks like in C"""
        b = name[:-len('_get_type')].replace('_', '')
        if b in self.elow: return ('4', self.elow[b])
        if b in self.low: return ('ptr', self.low[b])
        if b.startswith('g'): return ('ptr', '_G' + ''.join(x.capitalize() for x in name[:-9].split('_')[1:]))
        return ('ptr', None)
    def of_c(self, t):
        t = re.sub(r'\b(const|volatile|restrict)\b', '', t).strip()
        t = re.sub(r'\s+', ' ', t)
        if t == 'NULL': return ('ptr', None)
        if t == 'void': return ('void',)
        if t.endswith('*') or t.endswith(']') or '(*)' in t:
            m = re.match(r'(?:struct |union |unsigned |signed )?(\w+) ?(\*|\[\d*\])$', t)
            if not m: return ('ptr', t)
            n = m.group(1)
            if n == 'void': return ('ptr', None)
            if n in ('char', 'unsigned', 'signed'): return ('ptr', 'char')
            return ('ptr', n)
        if t in INT4: return ('4',)
        if t in INT8: return ('8',)
        if t in ('double', 'float'): return ('f',)
        m = re.match(r'(?:enum )?_?(\w+)$', t)
        if m and (m.group(1) in self.enums or '_' + m.group(1) in self.enums): return ('4', m.group(1))
        if re.match(r'unsigned (char|short)|signed char|short|_Bool', t): return ('4',)
        return ('?', t)
    def related(self, a, b):
        if a == b or a == '_GObject' and self.isobj(b) or b == '_GObject' and self.isobj(a): return True
        return b in self.anc(a) or a in self.anc(b)
    def isobj(self, n): return '_GObject' in self.anc(n) or n == '_GObject' or n not in self.parent
    def anc(self, n):
        out = []
        while n in self.parent and n not in out: out.append(n); n = self.parent[n]
        return out + [n]
    def fits(self, want, got, recv=False):
        """an argument declared as `want` and C type `got`"""
        if want[0] != got[0]: return False
        if want[0] == 'ptr':
            if want[1] is None: return True
            if got[1] is None: return True
            return self.related(want[1], got[1])
        if len(want) > 1 and len(got) > 1: return want[1].lstrip('_') == got[1].lstrip('_')
        return True

class Sig: pass

def operand(e, refs):
    return siglib.strip(e, refs)
def refs_of(f): return {i: e['x'] for b, i, e in f.exprs() if e['k'] == 'ex'}

def gtype(T, x):
    if x['k'] == 'int': return FUND.get((x['v'] & ~1) >> 2, ('?', x['v']))
    if x['k'] == 'bin' and x['o'] == '|': return gtype(T, x['x'])
    if x['k'] == 'call' and x.get('fn', '').endswith('_get_type'): return T.of_get_type(x['fn'])
    return ('?', x['k'])

def split_fn(t):
    m = re.match(r'(.*?)\s*\(\*\)\((.*)\)$', t)
    if not m: return None
    out, depth, cur = [], 0, ''
    for c in m.group(2):
        if c == ',' and depth == 0: out.append(cur.strip()); cur = ''; continue
        if c == '(': depth += 1
        if c == ')': depth -= 1
        cur += c
    if cur.strip() not in ('', 'void'): out.append(cur.strip())
    return m.group(1).strip(), out

def values(p, fn, e, want, depth=0, seen=None):
    """the expressions (function, node) an operand may come from, through locals, parameters and helpers"""
    seen = seen if seen is not None else set()
    refs = refs_of(fn)
    e = operand(e, refs)
    if e['k'] == 'cond': return values(p, fn, e['x'], want, depth, seen) + values(p, fn, e['y'], want, depth, seen)
    if e['k'] == 'var' and 'id' in e:
        if (fn.key(), e['id']) in seen or depth > 5: return []
        seen.add((fn.key(), e['id']))
        out = []
        for b, i, s in fn.exprs():
            for x in walk_stmt(s):
                if x['k'] == 'asg' and x['x']['k'] == 'var' and x['x'].get('id') == e['id']: out += values(p, fn, x['y'], want, depth + 1, seen)
            if s['k'] == 'decl':
                for d in s['d']:
                    if d.get('id') == e['id'] and 'x' in d: out += values(p, fn, d['x'], want, depth + 1, seen)
        k = next((n for n, q in enumerate(fn.params) if q['id'] == e['id']), None)
        if k is not None:
            for g in p.fns.values():
                for nm, node in g.callees:
                    if nm == fn.name and len(node['a']) > k and p.resolve(nm, g.file) is fn: out += values(p, g, node['a'][k], want, depth + 1, seen)
        return out
    if e['k'] == 'call' and e.get('fn'):
        g = p.resolve(e['fn'], fn.file)
        if g is not None and depth < 5 and (g.key(), 'ret') not in seen:
            seen.add((g.key(), 'ret'))
            return [v for b, i, s in g.exprs() if s['k'] == 'ret' and 'x' in s for v in values(p, g, s['x'], want, depth + 1, seen)]
    return [(fn, e)]

def declarations(ctx, p, T):
    out = []
    for f in p.fns.values():
        if not any(n == 'g_signal_new' for n, _ in f.callees): continue
        refs = refs_of(f)
        for name, node in f.callees:
            if name != 'g_signal_new': continue
            a = [operand(x, refs) for x in node['a']]
            s = Sig()
            s.fn, s.line, s.node = f, node['l'], node
            names = values(p, f, node['a'][0], 'str')
            names = [v for g, v in names if v['k'] == 'str']
            if len(names) != 1:
                ctx.count("signals declared through a helper"); 
            for nm in names:
                q = Sig(); q.__dict__.update(s.__dict__)
                q.name = norm(nm['v'])
                q.ret = gtype(T, a[7]); q.n = a[8]['v'] if a[8]['k'] == 'int' else None
                q.types = [gtype(T, x) for x in a[9:]]
                if q.n is not None and q.types[q.n:] == [('void',)]: q.types = q.types[:q.n]
                q.acc = next(iter(values(p, f, node['a'][4], 'fn')), (f, {'k': 'int', 'v': 0}))[1]
                q.slot = a[3]['v'] if a[3]['k'] == 'int' else None
                q.owner = q.cls = None
                for g, v in values(p, f, node['a'][1], 'type'):
                    # X_get_type(), or the type of a class structure
                    o = T.of_get_type(v['fn']) if v['k'] == 'call' and v.get('fn', '').endswith('_get_type') else None
                    if o is None:
                        while v['k'] in ('mem', 'un'): v = operand(v.get('b') or v['x'], refs_of(g))
                        t = T.of_c(v['t']) if v['k'] == 'var' else None
                        o = ('ptr', re.sub(r'(Class|Iface|Interface)$', '', t[1])) if t and t[0] == 'ptr' and t[1] else None
                    if o and o[0] == 'ptr' and o[1]: q.owner = o[1]
                if q.owner is None and f.params:
                    t = T.of_c(f.params[0]['t'])
                    if t[0] == 'ptr' and t[1]: q.owner = re.sub(r'(Class|Iface|Interface)$', '', t[1])
                if q.owner is None:          # an interface's base_init: the type made in this file
                    g = [x.name for x in p.fns.values() if x.file == f.file and x.name.endswith('_get_type')]
                    if len(g) == 1: q.owner = T.of_get_type(g[0])[1] or ''.join(x.capitalize() for x in g[0][:-9].split('_'))
                if q.owner:
                    o = '_' + q.owner.lstrip('_')
                    q.cls = next((o + x for x in ('Class', 'Iface', 'Interface') if o + x in T.names), None)
                    q.owner = o
                q.iface = q.cls is not None and T.parent.get(q.cls) == '_GTypeInterface'
                q.marshal = a[6]
                out.append(q)
    return out

class AccRule(CtxRule):
    def inline(self, eng, f): return True
    def on_call(self, eng, st, fr, name, args, node):
        if name.startswith('g_value_get_'): return [(st, st.env.get(('f', ('d', args[0]), 'held'), ('ld', ('f', ('d', args[0]), 'held'))))]
        if name.startswith('g_value_set_'): st.env[('f', ('d', args[0]), 'held')] = args[1]; return [(st, I0)]
        return CtxRule.on_call(self, eng, st, fr, name, args, node)

def run(ctx):
    p = ctx.prog
    E = p.enum
    T = Types(p)
    ctx.explanation = ("Every signal declaration of the C sources is compared with the class structure's slot at its offset, with every emission "
        "(types as passed to the variadic call) and with every handler connected to it; the accumulators are abstractly interpreted for every answer.")
    decls = declarations(ctx, p, T)
    by_name = {}
    for d in decls: by_name.setdefault(d.name, []).append(d)
    if len(decls) < 100: raise AnalysisBroken("only %d signal declarations found" % len(decls))
    recs = {n: r for (f, n), r in p.data['records'].items()}
    for d in decls:
        ctx.count("signals declared")
        V = lambda key, msg: ctx.violation("%s:%s:%s" % (d.owner, d.name, key), d.fn.file, d.line, "signal %s of %s: %s" % (d.name, d.owner, msg))
        if d.n is not None and d.n != len(d.types): V("count", "declared with %d parameters but %d types" % (d.n, len(d.types)))
        if any(t[0] == '?' for t in d.types + [d.ret]): V("type", "declared with a type which isn't known"); continue
        if d.slot:
            r = recs.get(d.cls)
            fld = r and next((x for x in r['fields'] if x.get('off') == d.slot), None)
            if fld is None: V("slot", "the class offset isn't a field of %s" % d.cls); continue
            if norm(fld['n']).strip('-') != d.name: V("slot", "its default handler is taken from the slot '%s' of the class" % fld['n']); continue
            sg = split_fn(fld['t'])
            if sg is None: V("slot", "the slot '%s' isn't a function" % fld['n']); continue
            ctx.count("class slots")
            if len(sg[1]) != len(d.types) + 1: V("slot-type", "the slot takes %d arguments and the signal passes %d" % (len(sg[1]), len(d.types) + 1))
            else:
                for n, (w, g) in enumerate(zip(d.types, sg[1][1:])):
                    if not T.fits(w, T.of_c(g)): V("slot-type", "the slot takes '%s' as argument %d, the signal passes %s" % (g, n + 1, w))
            if not T.fits(d.ret, T.of_c(sg[0])): V("slot-type", "the slot returns '%s', the signal %s" % (sg[0], d.ret))
        elif d.cls in recs:
            if any(norm(x['n']) == d.name and split_fn(x['t']) for x in recs[d.cls]['fields']): V("slot", "the class has a slot of this name, but the signal doesn't use it")
        if d.acc['k'] == 'fn':
            if d.ret == ('void',): V("accumulator", "it has an accumulator, but no return value")
            check_acc(ctx, p, d, V)
        elif d.ret != ('void',) and d.acc['k'] == 'int': pass
        if d.marshal['k'] == 'fn': ctx.assume("the marshaller of %s is not analysed" % d.name)
    def cands(names, at, strict_owner=True):
        c = [d for n in names for d in by_name.get(n, [])]
        if at is not None and at[0] == 'ptr' and at[1] in T.parent:
            anc = T.anc(at[1])
            own = [d for d in c if d.owner in anc]
            if own: return own
        return c
    prefix = by_name
    for f in p.fns.values():
        for name, node in f.callees:
            if name in ('g_signal_emit', 'g_signal_emit_by_name'):
                by = name.endswith('by_name')
                ctx.count("emissions")
                at = T.of_c(node['at'][0])
                if by: names = sorted({norm(v['v']).split('::')[0] for g, v in values(p, f, node['a'][1], 'str') if v['k'] == 'str'})
                else:
                    names = set()
                    for g, v in values(p, f, node['a'][1], 'sig'):
                        if v['k'] == 'idx' and v['x']['k'] == 'int':
                            n = p.signals().get(g.file, {}).get(v['x']['v'])
                            if n: names.add(norm(n))
                    names = sorted(names)
                where = "%s:%d" % (f.name, node['l'])
                V = lambda key, msg: ctx.violation("%s:%s:%s" % (f.name, '/'.join(names) or '?', key), f.file, node['l'], "emission of %s: %s" % ('/'.join(names) or 'a signal', msg))
                if not names: ctx.count("emissions of an unknown signal"); continue
                bad = []
                for n in names:
                    ds = [d for d in by_name.get(n, []) if by or d.fn.file == f.file] or by_name.get(n, [])
                    if not ds: bad.append(("unknown", "no signal '%s' is declared" % n)); continue
                    ds = [d for d in ds if d in cands([n], at)] or ds
                    args = node['at'][2 if by else 3:]
                    errs = []
                    for d in ds:
                        e = None
                        want = len(d.types) + (d.ret != ('void',))
                        k = len(d.types)
                        if len(args) < k or len(args) > k + 1 and d.ret != ('void',): e = "%d arguments are passed, %d are declared" % (len(args), k)
                        elif len(args) == k and d.ret != ('void',): e = "no place for the returned value is passed"
                        else:
                            for m, (w, g) in enumerate(zip(d.types, args)):
                                if not T.fits(w, T.of_c(g)): e = "argument %d is passed as '%s' but declared as %s" % (m + 1, g, desc(w))
                            if len(args) == k + 1 and d.ret != ('void',):
                                g = T.of_c(re.sub(r'\s*\*$', '', args[k]))
                                if not args[k].endswith('*') or not T.fits(d.ret, g): e = "the returned value goes to '%s' but is declared as %s" % (args[k], desc(d.ret))
                        errs.append(e)
                    if all(errs): bad.append(("args", errs[0]))
                if bad and len(bad) == len(names): V(*bad[0])      # a computed name: the other names belong to other paths
            elif name in ('g_signal_connect_data', 'g_signal_connect_object'):
                ctx.count("connections")
                at = T.of_c(node['at'][0])
                nvals = sorted({norm(v['v']).split('::')[0] for g, v in values(p, f, node['a'][1], 'str') if v['k'] == 'str'})
                hs = [(g, v) for g, v in values(p, f, node['a'][2], 'fn') if v['k'] == 'fn']
                if not nvals or not hs: ctx.count("connections with a computed name or handler"); continue
                flags = operand(node['a'][-1], refs_of(f))
                swapped = flags['k'] == 'int' and flags['v'] & 2
                V = lambda key, msg: ctx.violation("%s:%s:%s" % (f.name, '/'.join(nvals), key), f.file, node['l'], "connection to %s: %s" % ('/'.join(nvals), msg))
                pairs = [(n, g, h) for n in nvals for g, h in hs] if len(nvals) == 1 or len(hs) == 1 else []
                for n, g, hv in pairs:
                    if n.startswith('notify'): continue
                    h = p.resolve(hv['n'], g.file)
                    ds = by_name.get(n)
                    if not ds: V("unknown", "no signal '%s' is declared" % n); continue
                    if h is None: ctx.count("handlers outside the sources"); continue
                    ctx.count("handlers compared")
                    ps = [T.of_c(q['t']) for q in h.params]
                    inst = ps[-1] if swapped and ps else ps[0] if ps else None
                    if inst is not None and inst[0] == 'ptr' and inst[1] is not None and (at is None or at[1] in (None, '_GObject')): at2 = inst
                    else: at2 = at
                    errs = []
                    for d in [x for x in ds if x in cands([n], at2)] or ds:
                        e = None
                        full = [('ptr', None)] + d.types + [('ptr', None)]
                        if len(ps) > len(full): e = "the handler %s takes %d arguments, only %d are passed" % (h.name, len(ps), len(full))
                        else:
                            for m, g2 in enumerate(ps):
                                w = full[m]
                                if not T.fits(w, g2): e = "the handler %s takes '%s' as argument %d, which is declared as %s" % (h.name, h.params[m]['t'], m, desc(w))
                                elif 0 < m <= len(d.types) and w[0] == 'ptr' and g2[1] is None and m == len(ps) - 1 and used(h, m): e = "the handler %s takes argument %d for its data" % (h.name, m)
                                elif m == 0 and used(h, 0) and not swapped and g2[0] == 'ptr' and g2[1] in T.parent and at[1] in T.parent and not T.related(g2[1], at[1]) and not iface(T, g2[1], decls): e = "the handler %s expects a %s" % (h.name, g2[1])
                            r = T.of_c(h.rt)
                            if e is None and d.ret != ('void',) and not T.fits(d.ret, r): e = "the handler %s returns '%s', the signal %s" % (h.name, h.rt, desc(d.ret))
                        errs.append(e)
                    if all(errs): V("handler:" + h.name, errs[0])
    for k, n in (("signals declared", 105), ("class slots", 80), ("emissions", 150), ("handlers compared", 60), ("accumulators", 3), ("accumulator runs", 40)): ctx.floor(k, n)

def used(h, m):
    """the handler does something with its parameter"""
    i = h.params[m]['id']
    return any(x['k'] == 'var' and x.get('id') == i for b in h.blocks.values() for x in [y for n, e in b['e'] for y in walk_stmt(e)] + list(walk((b.get('t') or {}).get('c'))))
def iface(T, n, decls): return any(d.owner == n and d.iface for d in decls)
def desc(w): return {'4': 'a 32-bit integer', '8': 'a 64-bit integer', 'ptr': 'a pointer', 'void': 'nothing', 'f': 'a number'}.get(w[0], '?') + (" (%s)" % w[1] if len(w) > 1 and w[1] else "")

_done = {}
def check_acc(ctx, p, d, V):
    """the first handler whose answer decides settles the result"""
    E = p.enum
    f = p.resolve(d.acc['n'], d.fn.file)
    if f is None: ctx.assume("accumulator %s" % d.acc['n']); return
    if d.ret[0] != '4': V("accumulator", "it accumulates something else than a status or a boolean"); return
    key = (f.key(), d.ret, d.name == 'connection-check')
    if key not in _done:
        _done[key] = errs = []
        ctx.count("accumulators")
        status = len(d.ret) > 1 and d.ret[1].endswith('MilterStatus')
        S = "MILTER_STATUS_"
        dom = [(v, n[len(S):]) for v, n in enum_values(p, S)] if status else [(0, 'FALSE'), (1, 'TRUE')]
        for prev, pn in dom:
            for new, nn in dom:
                eng = Engine(p, AccRule(p, f.file))
                acc, hr = (('sym', 'param', f.params[k]['n'], k) for k in (1, 2))
                def setup(eng, st):
                    st.env[('f', ('d', acc), 'held')] = I(prev); st.env[('f', ('d', hr), 'held')] = I(new)
                rs = eng.run(f, None, setup)
                ctx.used(eng); ctx.count("accumulator runs")
                for st, v in rs:
                    held = st.env.get(('f', ('d', acc), 'held'))
                    if status:
                        want = prev if nn == 'NOT_CHANGE' else new
                        wn = pn if nn == 'NOT_CHANGE' else nn
                        go = wn in ('DEFAULT', 'CONTINUE', 'ALL_OPTIONS')
                    else: want, go = new, bool(new) == (d.name == 'connection-check')     # TRUE stops; a connection is checked until one is gone
                    if held != I(want): errs.append("after %s a handler's %s makes %s" % (pn, nn, dict(dom).get(held[1], held[1]) if held and held[0] == 'i' else held))
                    if (eng.truth(st, v) is not True) if go else (eng.truth(st, v) is not False):
                        errs.append("a handler's %s after %s %s the emission" % (nn, pn, "doesn't go on with" if go else "doesn't end"))
    for e in _done[key][:3]: V("accumulator", e)
