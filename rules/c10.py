"""C10: whoever stops listening to an object stops listening to all of it."""
import os
from ctxlib import *
from facts import AnalysisBroken

CONNECT = {'g_signal_connect_data', 'g_signal_connect_object'}
OFF = {'g_signal_handlers_disconnect_matched'}
MATCH = {'id': 1, 'detail': 2, 'closure': 4, 'func': 8, 'data': 16}

def nodes(e):
    if isinstance(e, dict):
        if 'k' in e: yield e
        for v in e.values(): yield from nodes(v)
    elif isinstance(e, (list, tuple)):
        for v in e: yield from nodes(v)
def strip(n, blocks):
    import siglib
    seen = 0
    while isinstance(n, dict) and seen < 20:
        seen += 1
        if n.get('k') == 'cast': n = n['x']
        elif n.get('k') == 'ref':
            m = siglib.strip(n, blocks)
            if m is n: return n
            n = m
        else: return n
    return n

class Sig(CtxRule):
    """mon: connects, disconnects, releases"""
    max_depth = 4
    limit = 1
    file = None
    def inline(self, eng, f): return f.file == self.file and f.name in self.near
    exact = True
    def widen_key(self, eng, st, fr): return None if self.exact else CtxRule.widen_key(self, eng, st, fr)
    def on_call(self, eng, st, fr, name, args, node):
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
        a = tuple(eng.canon(st, x) for x in args)
        if name in CONNECT:
            v = self.unknown(eng, st, fr, node, 'handler', ne=0)
            self.ev(st, 'on', a[0], a[2][1] if a[2][0] == 'fn' else '?', a[3], v, a[1][1] if a[1][0] == 's' else '?'); return [(st, v)]
        if name in OFF:
            self.ev(st, 'off', a[0], a[5][1] if a[5][0] == 'fn' else '?', a[6], a[1]); return [(st, I1)]
        if name == 'g_signal_handler_disconnect':
            if a[1][0] == 'ld': self.ev(st, 'offid', a[0], a[1])
            return [(st, I0)]
        if name in ('g_object_unref', 'g_clear_object'):
            v = a[0]
            if name == 'g_clear_object' and v[0] == '&': v = eng.canon(st, eng.read(st, v[1]))
            self.ev(st, 'unref', v); return [(st, I0)]
        if name == 'g_object_ref': return [(st, a[0])]
        if name in ('milter_agent_flush', 'g_list_foreach'): return [(st, I1)]
        return None

def run(ctx):
    p = ctx.prog
    ctx.explanation = ("Every function which connects or disconnects handlers of signals is interpreted with the functions of its file inlined; the handlers each disconnecting path takes off an object are compared with those the connecting functions put on it, "
        "by handler and by the data they were connected with; where an object kept in a field is released, its handlers must have been taken off first.")
    seen = set()
    def V(f, key, msg, st=None):
        if (f.key(), key) in seen: return
        seen.add((f.key(), key))
        ctx.violation("%s:%s:%s" % (os.path.basename(f.file)[:-2], f.name, key), f.file, f.line, "%s: %s%s" % (f.name, msg, " (path %s)" % trace_str(st.trace) if st else ""))
    has, calls = {}, {}
    for f in p.fns.values():
        for n in nodes(f.raw['blocks']):
            if n['k'] == 'call' and n.get('fn'):
                if n['fn'] in CONNECT | OFF | {'g_signal_handler_disconnect'}: has.setdefault((f.file, f.name), set()).add(n['fn'])
                calls.setdefault((f.file, f.name), set()).add(n['fn'])
                for a in n['a']:
                    for m in nodes(a):
                        if m['k'] == 'fn': calls[(f.file, f.name)].add(m['n'])
    files = sorted({k[0] for k, v in has.items() if k[0].startswith('milter/')})
    for file in files:
        mine = {k[1] for k in has if k[0] == file}
        offs = {n for n in mine if has[(file, n)] & (OFF | {'g_signal_handler_disconnect'})}
        if not offs: continue
        # functions which reach them inside the file
        near = set(mine)
        for _ in range(2): near |= {f.name for f in p.fns.values() if f.file == file and calls.get((file, f.name), set()) & near}
        near = {n for n in near if not n.endswith(('_get_type', '_get_type_once'))}
        def go(f, inl):
            for exact in (True, False):
                r = Sig(p, file); r.near, r.exact = inl, exact
                eng = Engine(p, r, budget=200000)
                try: out = eng.run(f)
                except Limit:
                    if exact: continue
                    raise
                ctx.used(eng); ctx.count("functions interpreted")
                return eng, out
        # who connects what: function -> [(object, {handler: (data, id field)})]
        puts = []
        types = {}
        for f in [g for g in p.fns.values() if g.file == file and g.name in mine]:
            refs = f.refs if hasattr(f, 'refs') else f.raw.get('refs', {})
            for n in nodes(f.raw['blocks']):
                if n['k'] == 'call' and n.get('fn') in CONNECT | OFF:
                    i, j = (2, 3) if n['fn'] in CONNECT else (5, 6)
                    h = next((m['n'] for m in nodes(strip(n['a'][i], refs)) if m['k'] == 'fn'), None)
                    d = strip(n['a'][j], refs)
                    types.setdefault(h, {}).setdefault(n['fn'] in CONNECT, set()).add(re.sub(r'\bconst\b|\s', '', d.get('t', '') or ''))
        fields = {}
        for f in [g for g in p.fns.values() if g.file == file and g.name in mine and has[(file, g.name)] & CONNECT]:
            eng, out = go(f, mine)
            per = {}
            for st, v in out:
                for e in events(st, 'on'):
                    per.setdefault(e[1], {})[e[2]] = (e[3], [l[2] for l, x in st.env.items() if l[0] == 'f' and x == e[4]])
                    ctx.count("connections")
            for o, hs in per.items(): puts.append((f, o, hs))
        # fields in which an object is kept which is listened to
        for f in [g for g in p.fns.values() if g.file == file and g.name in near and not g.name.endswith('_class_init')]:
            if not calls.get((file, f.name), set()) & ({x for x in mine if has[(file, x)] & CONNECT} | CONNECT): continue
            eng, out = go(f, mine)
            for st, v in out:
                for e in events(st, 'on'):
                    if e[2] == '?': continue
                    locs = [l for l, x in st.env.items() if l[0] == 'f' and x == e[1]] + ([e[1][1]] if e[1][0] == 'ld' and e[1][1][0] == 'f' else [])
                    for l in locs:
                        if val_mentions(l, lambda y: y[:1] == ('priv',)) and val_mentions(l[1], lambda y: y == e[3]): fields.setdefault(l[2], set()).add(e[2])
        # ---- who disconnects
        for f in [g for g in p.fns.values() if g.file == file and g.name in offs]:
            eng, out = go(f, mine)
            for st, v in out:
                ctx.count("paths which disconnect or not")
                byobj = {}
                for e in events(st, 'off'):
                    byobj.setdefault(e[1], {})[e[2]] = e
                    ctx.count("disconnections")
                    if e[4][0] == 'i' and not e[4][1] & MATCH['func']: byobj[e[1]]['*'] = e
                    elif e[4][0] == 'i' and not e[4][1] & MATCH['data'] or e[2] == '?': V(f, 'match-' + e[2], "handlers of others are disconnected too", st)
                    on, off = types.get(e[2], {}).get(True, set()) - {'', 'void*', 'gpointer'}, types.get(e[2], {}).get(False, set()) - {'', 'void*', 'gpointer'}
                    if on and off and not off <= on: V(f, 'data-' + e[2], "%s is disconnected with other data (%s) than it was connected with (%s)" % (e[2], ', '.join(off - on), ', '.join(on)), st)
                    if e[2] != '?' and not any(e[2] in hs for _, _, hs in puts) and e[2] in types and True not in types[e[2]]: V(f, 'never-' + e[2], "%s is disconnected but never connected" % e[2], st)
                for o, hs in byobj.items():
                    if '*' in hs: continue
                    for g, o2, hs2 in puts:
                        if set(hs) & set(hs2) - {'?'}:
                            ctx.count("pairs compared")
                            for h in sorted(set(hs2) - set(hs) - {'?'}):
                                # only what is connected with the same data, to the same kind of object
                                if same_data(hs2, set(hs) & set(hs2), h): V(f, 'left-' + h, "%s stays connected (%s connects it with the others)" % (h, g.name), st)
                # by id
                ids = [e for e in events(st, 'offid')]
                names = {e[2][1][2]: e for e in ids if e[2][0] == 'ld' and e[2][1][0] == 'f'}
                for g, o2, hs2 in puts:
                    idf = {x for d, fs in hs2.values() for x in fs}
                    if idf & set(names):
                        ctx.count("pairs compared")
                        some = next(e for n, e in names.items() if n in idf)
                        for x in idf - set(names):
                            if eng.truth(st, ('ld', some[2][1][:2] + (x,))) is not False: V(f, 'left-' + x, "the handler %s stays connected" % x, st)
                        if len({e[1] for n, e in names.items() if n in idf}) > 1: V(f, 'object', "handlers are disconnected from different objects", st)
        # ---- what is released
        for f in [g for g in p.fns.values() if g.file == file and not g.name.endswith('_class_init')]:
            rel = {m['f'] for n in nodes(f.raw['blocks']) if n['k'] == 'call' and n.get('fn') in ('g_object_unref', 'g_clear_object') for m in nodes(n['a']) if m['k'] == 'mem' and m['f'] in fields}
            if not rel: continue
            eng, out = go(f, mine)
            for st, v in out:
                for n, e in enumerate(st.mon):
                    if e[0] != 'unref' or e[1][0] != 'ld' or e[1][1][0] != 'f' or e[1][1][2] not in fields: continue
                    ctx.count("releases")
                    if any(x[0] == 'off' and x[1] == e[1] and x[4][0] == 'i' and not x[4][1] & MATCH['func'] for x in st.mon[:n]): continue      # all of the data's handlers
                    got = {x[2] for x in st.mon[:n] if x[0] == 'off' and x[1] == e[1]}
                    for h in sorted(fields[e[1][1][2]] - got): V(f, 'released-' + h, "the object kept as %s is given up while %s is still connected to it" % (e[1][1][2], h), st)
    ctx.floor("pairs compared", 6); ctx.floor("connections", 60); ctx.floor("disconnections", 60); ctx.floor("releases", 3)

def same_data(hs, common, h):
    return any(hs[c][0] == hs[h][0] for c in common)
