"""C42: what a function or an object owns is released exactly once, and not used, kept or overwritten wrongly."""
import os
from runner import pmap
from absint import *
from facts import AnalysisBroken
PLAIN = {'g_free', 'g_free_sized', 'g_string_free', 'g_string_free_and_steal', 'g_list_free', 'g_list_free_1', 'g_list_free_full', 'g_slist_free', 'g_slist_free_1', 'g_queue_free', 'g_queue_free_full', 'g_ptr_array_free', 'g_array_free', 'free',
         'g_strfreev', 'g_timer_destroy', 'g_value_array_free', 'g_dir_close', 'g_option_context_free'}
COUNTED = {'g_object_unref', 'g_io_channel_unref', 'g_hash_table_unref', 'g_hash_table_destroy', 'g_main_loop_unref', 'g_main_context_unref', 'g_ptr_array_unref', 'g_array_unref', 'g_bytes_unref', 'g_date_time_unref'}
REFS = {'g_object_ref', 'g_object_ref_sink', 'g_io_channel_ref', 'g_hash_table_ref', 'g_main_context_ref', 'g_ptr_array_ref', 'g_main_loop_ref'}
NEW = {'g_strdup', 'g_strdup_printf', 'g_strdup_vprintf', 'g_strndup', 'g_strconcat', 'g_strjoin', 'g_strjoinv', 'g_build_filename', 'g_malloc', 'g_malloc0', 'g_malloc_n', 'g_malloc0_n', 'g_string_new',
       'g_string_new_len', 'g_string_sized_new', 'g_strsplit', 'g_ascii_strdown', 'g_ascii_strup', 'g_strstrip_', 'g_path_get_dirname', 'g_path_get_basename', 'g_get_current_dir', 'g_strescape', 'g_strdup_inline', 'g_memdup', 'g_memdup2',
       'g_enum_to_string', 'g_flags_to_string', 'g_filename_to_utf8', 'g_convert', 'g_locale_to_utf8', 'g_file_read_link'}
# what keeps a pointer to what it may not change
STATICS = {'g_bytes_new_static', 'g_intern_static_string', 'g_quark_from_static_string', 'g_memory_input_stream_new_from_data', 'g_ptr_array_add', 'g_variant_new_from_data'}
TABLES = {'g_hash_table_new', 'g_hash_table_new_full', 'g_ptr_array_new', 'g_array_new'}
# what takes a container but leaves it to its owner
def keeps(p, fr, name, n, t):
    if name.startswith('g_string_') or name in ('memcpy', 'memset', 'memmove', 'strcpy', 'strcat', 'strncpy', 'snprintf', 'g_snprintf', 'g_strstrip', 'g_strchug', 'g_strchomp', 'g_strdelimit', 'g_ascii_strtoull', 'strtok', 'inet_pton', 'bind', 'connect'): return True
    if t.startswith('const ') or name in ('g_set_error', 'g_error_new', 'g_set_error_literal', 'g_strdup_printf', 'g_strconcat', 'g_build_filename', 'g_print', 'g_printerr', 'g_log', 'printf', 'fprintf', 'syslog', 'g_prefix_error'): return True
    if n == 0 and name.startswith('g_hash_table_') and name.rsplit('_', 1)[1] not in ('destroy', 'unref', 'ref'): return True
    g = p.resolve(name, fr.fn.file)
    if g is not None and g.variadic and n >= len(g.params): return True         # what is formatted
    return g is not None and t.startswith(('struct _GHashTable', 'struct _GString', 'struct _GList', 'char *')) and borrows(p, g, n)
READS = ('g_hash_table_foreach', 'g_hash_table_lookup', 'g_hash_table_size', 'g_hash_table_iter_init', 'g_hash_table_get_keys', 'g_list_length', 'g_list_copy', 'g_list_find', 'g_list_nth', 'g_strdup', 'g_return_if_fail_warning', 'g_hash_table_insert_')
_borrows = {}
def borrows(p, g, n):
    """whether a function only looks at its nth argument"""
    k = (g.key(), n)
    if k in _borrows: return _borrows[k]
    _borrows[k] = True
    if n >= len(g.params): _borrows[k] = False; return False
    pid = g.params[n]['id']
    def isp(e):
        while e['k'] in ('cast', 'paren'): e = e['x']
        return e['k'] == 'var' and e.get('id') == pid
    ok = pid not in g.addrtaken
    for _, _, e in g.exprs():
        if e['k'] == 'ret' and isinstance(e.get('x'), dict) and isp(e['x']): ok = False
        if e['k'] == 'decl' and any('x' in d and isp(d['x']) for d in e['d']): ok = ok and all(not isp(d['x']) or True for d in e['d'] if 'x' in d) and False
        for x in walk_stmt(e):
            if x['k'] == 'asg' and isp(x['y']): ok = False
            if x['k'] == 'call':
                for i, a in enumerate(x.get('a') or ()):
                    if isp(a) and not (x.get('fn') in READS or i < len(x.get('pc', ())) and x['pc'][i] and x['fn'] not in STATICS or x.get('fn') and keeps(p, Frame(g, 0, None), x['fn'], i, (x.get('at') or [''] * 99)[i] if i < len(x.get('at') or ()) else '')): ok = False
    _borrows[k] = ok
    return ok

# set once in the life of its object, or only while it is known to be empty by the state of something else
ONCE = {('milter/server/milter-server-context.c', 'client_channel'): "a connection is established again only after it failed or ended"}

def holds(v, o):
    """whether a value is, or points into, what was made"""
    return v == o or isinstance(v, tuple) and v[:1] != ('ld',) and any(isinstance(x, tuple) and holds(x, o) for x in v[1:])

class R(Rule):
    """mon: (owned here, released, referenced here, problems)"""
    max_depth = 2
    level = 0
    block_cap = 120
    def __init__(self, m, fn):
        self.m, self.p, self.fn = m, m.p, fn
    def init_mon(self): return (frozenset(), frozenset(), frozenset(), frozenset())
    def inline(self, eng, f):
        """the functions of the file which release or set owned fields themselves"""
        return f.file == self.fn.file and not f.variadic and (f.key() in self.m.direct or f.key() in self.m.consume and f.static)
    def set(self, st, **k):
        st.mon = tuple(k.get(n, v) for n, v in zip(('own', 'rel', 'refs', 'bad'), st.mon))
    def bad(self, st, key, line, msg, v=None):
        """what is wrong, and whether it is whatever the callers do"""
        self.set(st, bad=st.mon[3] | {(key, line, msg, v is not None and v[0] == 'sym' and v[1] != 'param')})
    def rel(self, st, v):
        for x in st.mon[1]:
            if x[2] == v: return x
    def at_loophead(self, eng, st, fr, b):
        """only what something still refers to is remembered over the iterations"""
        w = lambda v: isinstance(v, tuple) and len(v) > 2 and v[0] == 'sym' and isinstance(v[2], tuple) and v[2][:1] == ('w',)
        own, rel, refs, bad = st.mon
        held = set(st.env.values())
        def simple(v): return v[0] == 'ld' and v[1] not in st.env and v[1][0] == 'f' and v[1][1][0] == 'd' and v[1][1][1][0] in ('priv', 'sym')
        rel = frozenset(x for x in rel if not val_mentions(x, w) and (x[2] in held or simple(x[2])))
        refs = frozenset(x for x in refs if not val_mentions(x, w) and (x[0] == 'forgot' or x[1] in held or simple(x[1])))
        keep = set()
        for o in own:
            if val_mentions(o, w): continue
            if eng.truth(st, o[1]) is False: continue
            if any(holds(v, o[1]) for v in held): keep.add(o)
            else: bad = bad | {('leak', o[2], "what is made in line %d is neither released nor handed on" % o[2], True)}
        st.mon = (frozenset(keep), rel, refs, bad)
    def use(self, eng, st, v, line, what):
        x = self.rel(st, v)
        if x and x[1] == 'p': self.bad(st, 'used', line, "%s uses what was released in line %d" % (what, x[3]), v)
    def release(self, eng, st, v, kind, line, name):
        v = eng.canon(st, v)
        if v[0] == 'i': return
        x = self.rel(st, v)
        if kind == 'p' and x and x[1] == 'p': self.bad(st, 'twice', line, "%s releases again what was released in line %d" % (name, x[3]), v); return
        if kind == 'r' and ('v', v) in st.mon[2]:
            self.set(st, refs=st.mon[2] - {('v', v)}); return
        if v[0] == '&': return
        if kind == 'r' and any(o[:2] == ('o', v) for o in st.mon[0]): kind = 'p'        # the only reference
        if kind == 'r' and ('m', v) in st.mon[2]: self.set(st, refs=st.mon[2] - {('m', v)}); return
        self.set(st, own=frozenset(o for o in st.mon[0] if o[1] != v), rel=st.mon[1] | {('r', kind, v, line)})
    def escape(self, st, v): 
        if any(o[1] == v for o in st.mon[0]): self.set(st, own=frozenset(o for o in st.mon[0] if o[1] != v))
    def on_call(self, eng, st, fr, name, args, node):
        if name == 'milter_logger_get_interesting_level': return [(st, I(self.level))]
        if name.startswith('g_return_if_fail_warning'): return []
        l = node['l']
        if name in PLAIN or name in COUNTED:
            self.release(eng, st, args[0], 'p' if name in PLAIN else 'r', l, name)
            v = I0
            if name.endswith('_and_steal') or name == 'g_string_free':
                if name == 'g_string_free' and args[1] != I0: return [(st, I0)]
                v = eng.fresh(st, fr, ('str', l), name); eng.constrain(st, v, ne=0); self.made(st, v, l)
            return [(st, v)]
        if name.startswith(('g_list_', 'g_slist_')) and name.split('_', 2)[2] in ('append', 'prepend', 'insert', 'insert_sorted', 'insert_before', 'remove', 'remove_link', 'delete_link', 'remove_all', 'concat', 'reverse', 'sort', 'sort_with_data'):
            v, t = eng.canon(st, args[0]), name.split('_', 2)[2]
            for a in args[1:]: self.use(eng, st, eng.canon(st, a), l, name); self.escape(st, eng.canon(st, a))
            if v[0] != 'i': self.set(st, rel=st.mon[1] | {('r', 'r', v, l)})
            r = eng.fresh(st, fr, ('list', l), name)
            if t == 'remove_link': self.made(st, eng.canon(st, args[1]), l)
            if t in ('append', 'prepend', 'insert', 'insert_sorted', 'insert_before'): eng.constrain(st, r, ne=0)
            self.after_call(eng, st, fr, name, args, node, r)
            return [(st, r)]
        if name in REFS:
            v = eng.canon(st, args[0])
            if v[0] != 'i':
                b = {o for o in st.mon[2] if o[:2] == ('b', v)}
                self.set(st, refs=st.mon[2] - b if b else st.mon[2] | {('v', v)})
            return [(st, v)]
        if name == 'g_slice_free1' or name == 'g_slice_free': self.release(eng, st, args[1], 'p', l, name); return [(st, I0)]
        at, pc = node.get('at', ()), node.get('pc', ())
        for n, a in enumerate(args):
            a = eng.canon(st, a)
            if a[0] in ('i', 's', 'fn', '&'): continue
            self.use(eng, st, a, l, name.strip('*'))
        g = self.p.resolve(name, fr.fn.file)
        inl = g is not None and self.inline(eng, g) and fr.depth < self.max_depth and g.name not in fr.chain()
        if not inl:
            for n, a in enumerate(args):
                if n < len(pc) and pc[n] and name not in STATICS: continue
                if not keeps(self.p, fr, name, n, at[n] if n < len(at) else ''): self.escape(st, eng.canon(st, a))
            if g is not None: self.forget(eng, st, fr, g, node)
            elif name.startswith('*') and name.strip('*').split('.')[-1].split('>')[-1] not in ('dispose', 'finalize', 'constructed') or name.startswith('g_signal_emit'): self.forget(eng, st, fr, None, node, not name.startswith("*"))
        return None
    def forget(self, eng, st, fr, g, node, sig=False):
        """a call which isn't followed may release and set fields"""
        w = self.m.writes(g)
        if not w: return
        if g is None and sig and self.fn.name not in self.m.final:
            for x, l in list(dangling(st)): self.bad(st, 'dangling', x[3], "%s still refers to what was released when others are called" % l[2])
        hit = lambda loc: loc[0] == 'f' and loc[2] in w
        self.set(st, rel=frozenset(x for x in st.mon[1] if not (x[2][0] == 'ld' and hit(x[2][1]))), refs=st.mon[2] | {('forgot', ('n', n)) for n in w})
        for l, v in list(st.env.items()):
            if hit(l): st.env[l] = eng.fresh(st, fr, ('after', node['l'], l[2]), 'after')
        for f in [f for f in st.facts if f[0] == 'ld' and hit(f[1])]:
            st.env.setdefault(f[1], eng.fresh(st, fr, ('after', node['l'], f[1][2]), 'after'))
    def made(self, st, v, line): self.set(st, own=st.mon[0] | {('o', v, line)})
    def after_call(self, eng, st, fr, name, args, node, val):
        g = self.p.resolve(name, fr.fn.file)
        if (name in NEW or name in TABLES or g is not None and g.key() in self.m.makers) and val[0] == 'sym':
            if g is None: eng.constrain(st, val, ne=0)
            self.made(st, val, node['l'])
        for x in [x for x in st.mon[1] if x[2] == val]: self.set(st, rel=st.mon[1] - {x})
    def on_load(self, eng, st, fr, loc, node):
        if loc[0] == 'f' and loc[1][0] == 'd' and node.get('k') == 'mem': self.use(eng, st, loc[1][1], node.get('l', eng.cur_line) or eng.cur_line, "reading %s" % loc[2])
    def on_store(self, eng, st, fr, loc, val, node):
        val = eng.canon(st, val)
        if loc[0] == 'v':
            if loc[2] in fr.fn.cleanups: self.escape(st, val)          # released at the end of its scope
            return
        self.escape(st, val)
        if loc[0] != 'f': return
        if loc[1][0] == 'd': self.use(eng, st, loc[1][1], eng.cur_line, "writing %s" % loc[2])
        x = self.rel(st, val)
        if x and x[1] == 'p': self.bad(st, 'kept', eng.cur_line, "%s keeps what was released in line %d" % (loc[2], x[3]), val)
        ld = ('ld', loc)
        old = eng.overwritten if eng.overwritten is not None else ld
        old = eng.canon(st, old)
        tgt = node.get('x') if node.get('k') == 'asg' else None
        if tgt and tgt['k'] == 'mem' and (tgt['b'].get('t'), loc[2]) in self.m.owned and (self.fn.file, loc[2]) not in ONCE and self.fn.name not in self.m.setprop and old != val and old[0] not in ('i', 's'):
            if not self.rel(st, old) and eng.truth(st, old) is not False and not any(o[:2] in (('v', old), ('b', old)) for o in st.mon[2]):
                held = [l for l, v in st.env.items() if v == old and l != loc]
                if old[0] == 'ld' and old[1] != loc and old[1][0] == 'f' and eng.read(st, old[1]) == old: held.append(old[1])
                if held:
                    if any(l[0] == 'v' for l in held) and not any(l[0] == 'f' for l in held): self.made(st, old, eng.cur_line)
                elif (eng.truth(st, old) is True if old != ld else ('forgot', ('n', loc[2])) not in st.mon[2] and not self.fresh_object(st, loc)): self.bad(st, 'lost', eng.cur_line, "%s is overwritten, and what it held isn't released" % loc[2])
        if tgt and tgt['k'] == 'mem' and (tgt['b'].get('t'), loc[2]) in self.m.owned:
            if any(o[:2] == ('v', val) for o in st.mon[2]): self.set(st, refs=st.mon[2] - {('v', val)} | {('m', val)})
            elif val[0] == 's' or val[0] == 'sym' and val[1] == 'param' or val[0] == 'ld' and val[1] != loc and val[1][0] in 'fg' and eng.read(st, val[1]) == val:
                self.set(st, refs=st.mon[2] | {('b', val, eng.cur_line, loc)})
        # the value overwritten is forgotten
        drop = [x for x in st.mon[1] if x[2] == ld]
        if drop: self.set(st, rel=st.mon[1] - set(drop))
        if val == I0 and not any(l != loc and (val_mentions(v, lambda y: y == ld) or val_mentions(l, lambda y: y == ld)) for l, v in st.env.items()):
            for f in [f for f in st.facts if val_mentions(f, lambda y: y == ld)]: del st.facts[f]
            if not val_mentions(st.mon[0], lambda y: y == ld) and not any(val_mentions(x, lambda y: y == ld) for k in (0, 1, 2) for x in st.mon[k]):
                del st.env[loc]; st.facts[ld] = (0, 0, frozenset())
        else: st.facts.pop(ld, None)
    def fresh_object(self, st, loc):
        """a field of what was just created, or of an object which is being initialised"""
        rs = root(loc)
        if any(y[0] == 'sym' and (y[-1] in NEW or y[-1] == 'g_object_new' or str(y[-1]).endswith('_new')) for y in rs): return True
        return self.m.initial(self.fn) or loc[1][0] == 'd' and loc[1][1][0] == 'sym' and any(o[1] == loc[1][1] for o in st.mon[0])

class Model:
    def __init__(self, p):
        self.p = p
        self.owned = set()
        self.touching = set()
        direct = set()
        for f in p.fns.values():
            for _, _, e in f.exprs():
                for x in walk_stmt(e):
                    if x['k'] == 'call' and (x.get('fn') in PLAIN or x.get('fn') in COUNTED):
                        direct.add(f.key())
                        a = x['a'][0] if x.get('a') else None
                        while a and a['k'] in ('cast', 'paren'): a = a['x']
                        if a and a['k'] == 'mem' and a.get('arrow'): self.owned.add((a['b'].get('t'), a['f']))
        names = {f for _, f in self.owned}
        for f in p.fns.values():
            if f.fields_written & names: direct.add(f.key())
        self.names = names
        self.direct = direct
        self.consume = set()
        self.touching = set(direct)
        ch = True
        while ch:
            ch = False
            for f in p.fns.values():
                if f.key() not in self.touching and any(g.key() in self.touching and g.static and g.file == f.file for g in p.callees(f)):
                    self.touching.add(f.key()); ch = True
        self._w = {}
        # functions which initialise objects
        self.inits = set()
    def writes(self, g):
        if g is None: return self.names
        k = g.key()
        if k not in self._w:
            seen, todo, out = {k}, [g], set()
            while todo:
                f = todo.pop()
                out |= f.fields_written & self.names
                if any(n.startswith(('g_signal_emit', '*')) for n, _ in f.callees): out |= set()
                for h in self.p.callees(f):
                    if h.key() not in seen: seen.add(h.key()); todo.append(h)
            self._w[k] = out
        return self._w[k]
    def initial(self, f):
        return f.name in self.ctors or f.static and f.name.endswith('_init') and len(f.params) <= 2 and f.name != 'class_init'

def slot(p, *names):
    return {x['y']['n'] for f in p.fns.values() for _, _, e in f.exprs() for x in walk_stmt(e) if x['k'] == 'asg' and x['x']['k'] == 'mem' and x['x']['f'] in names and x['y']['k'] == 'fn'}

def private(l):
    return l[0] == 'f' and l[1][0] == 'd' and l[1][1][0] == 'priv'
def root(loc):
    out = []
    while True:
        if loc[0] in ('f', 'x', 'd'): loc = loc[1]
        elif loc[0] == 'ld': loc = loc[1]
        elif loc[0] == 'priv': loc = loc[1]
        elif loc[0] == 'op': loc = loc[2]
        else: return out + [loc]
        out.append(loc)

def dangling(st):
    """the fields which still refer to what was released"""
    relv = {x[2] for x in st.mon[1]}
    for x in st.mon[1]:
        val = x[2]
        for l in [l for l, w in st.env.items() if w == val and private(l)] + ([val[1]] if val[0] == 'ld' and val[1] not in st.env and private(val[1]) else []):
            if not any(y in relv for y in root(l)): yield x, l

def check(ctx, m, f, level=0, deep=True):
    p = ctx.prog
    r = R(m, f)
    r.level = level
    if not deep: r.max_depth = 0
    eng = Engine(p, r, budget=60000)
    st = St(mon=r.init_mon())
    fr = Frame(f, 0, None)
    for n, q in enumerate(f.params): st.env[('v', fr.id, q['id'], q['n'])] = ('sym', 'param', q['n'], n)
    out, makes = {}, None
    def V(key, line, msg, s, sure=False):
        if (key, line, msg) not in out: out[(key, line, msg)] = (sure, "%s:%s:%s" % (os.path.basename(f.file), f.name, key), line, "%s: %s (path %s)" % (f.name, msg, trace_str(s.trace)))
    for s, v in eng.run_fn(st, fr):
        ctx.count("paths")
        own, rel, refs, bad = s.mon
        if v != I0: makes = (makes is not False) and any(o[1] == v for o in own)
        for key, line, msg, sure in bad: V(key, line, msg, s, sure)
        for o in own:
            if o[1] != v and eng.truth(s, o[1]) is not False and not any(val_mentions(x, lambda y: y == o[1]) for l, x in s.env.items() if l[0] not in 'vr') and not val_mentions(v, lambda y: y == o[1]): V('leak', o[2], "what is made in line %d is neither released nor handed on" % o[2], s, True)
        for o in refs:
            if o[0] == 'b' and s.env.get(o[3]) == o[1] and eng.truth(s, o[1]) is not False:
                val = o[1]
                V('borrowed', o[2], "%s keeps %s, which it doesn't own" % (o[3][2], val[1] if val[0] == 's' else val[2] if val[0] == 'sym' else val[1][-1]), s)
        relv = {x[2]: x for x in rel}
        x = relv.get(v)
        if x and x[1] == 'p' and f.rt != 'void': V('returned', x[3], "it returns what it released", s)
        if f.name in m.final: continue
        for x, l in dangling(s): V('dangling', x[3], "%s keeps what was released" % l[2], s)
    if f.rt != 'void': ctx.makes = makes
    ctx.used(eng)
    return list(out.values())

G = {}
class Part:
    """what one function's analysis did"""
    def __init__(self, prog): self.prog, self.n, self.engs, self.makes, self.undecided = prog, 0, [], False, False
    def count(self, what, n=1): self.n += n
    def used(self, eng): self.engs.append(eng)
def work(k):
    m = G['m']
    f = m.p.fns[k]
    part = Part(m.p)
    vs, makes = {}, True
    for level in (0, (1 << 31) - 1):        # without logging, and with all of it
        for deep in (True, False):
            try: r = check(part, m, f, level, deep); break
            except Limit: r = []
        else: part.undecided = True
        makes = makes and part.makes is True
        for sure, key, line, msg in r:
            if sure or (key, line) not in vs: vs[(key, line)] = (sure, key, line, msg)
    return k, list(vs.values()), part.n, sum(e.steps for e in part.engs), sum(e.call_sites for e in part.engs), set().union(*(e.visited_fns for e in part.engs)) if part.engs else set(), makes, part.undecided

def run(ctx):
    p = ctx.prog
    m = Model(p)
    m.final, m.ctors, m.setprop = slot(p, 'finalize'), slot(p, 'constructor', 'constructed'), slot(p, 'set_property')
    m.makers = set()
    refs = set().union(*(f.fnrefs for f in p.fns.values()))
    called = {g.key() for f in p.fns.values() for g in p.callees(f)}
    res, fns, ask = {}, [], set()
    while True:
        fns = [f for f in p.fns.values() if not f.file.startswith(('tool/', 'binding/')) and
               (f.key() in m.touching or any(n in NEW or n in TABLES for n, _ in f.callees) or any(g.key() in m.makers for g in p.callees(f)))]
        local = {f.key() for f in fns if f.static and f.name not in refs and f.key() in called}
        # a helper which isn't right by itself is judged where it is used
        todo = [f.key() for f in fns if f.key() not in res or f.key() not in m.consume and any(g.key() in ask for g in p.callees(f))]
        G['m'], G['ctx'] = m, ctx
        done = pmap(work, todo)
        consume, makers = set(), set()
        for k, vs, n, steps, sites, seen, makes, und in done:
            res[k] = (vs, n, steps, sites, seen, und)
            if vs and k in local and not any(v[0] for v in vs): consume.add(k)
            if makes: makers.add(k)
        ask = (consume - m.consume) | (makers - m.makers)
        if not ask: break
        m.consume |= consume
        m.makers |= makers
    ctx.count("functions returning what they make", len(m.makers))
    left = []
    ctx.explanation = ("Every function of milter/ and libmilter/ which releases something, sets a field that is released somewhere, or calls a function returning what it made is interpreted abstractly, path by path, twice: without logging and with all of it. "
                       "Reported: use, release, storing or returning of what was released, fields left pointing to what was released, owned fields overwritten without release or keeping what isn't owned, and what is made and lost.")
    ctx.assume("functions outside the repository keep GLib's ownership conventions")
    ctx.assume("a value stored in a structure, a list, a table or handed to a callback is owned by that from then on")
    for k, r in res.items(): ctx.fnset |= r[4]
    for k in sorted(m.makers)[:12]: ctx.sample("returns what it makes: %s %s" % k)
    for k in sorted(m.consume): ctx.sample("judged where it is called: %s %s" % k)
    ctx.count("owned fields", len(m.owned))
    reached = set().union(*(r[4] for k, r in res.items() if k not in m.consume))
    for f in fns:
        vs, n, steps, sites, seen, und = res[f.key()]
        if und: ctx.count("functions too large to be decided"); left.append(f.name)
        ctx.count("functions"); ctx.count("paths", n); ctx.count("steps", steps); ctx.count("call sites followed", sites)
        if f.key() in m.consume and f.key() in reached: ctx.count("helpers judged where they are called"); continue
        for sure, key, line, msg in vs: ctx.violation(key, f.file, line, msg)
    if len(left) > len(fns) // 50: raise AnalysisBroken("too many functions couldn't be decided: " + ", ".join(left))
    ctx.floor("functions", 450)
    ctx.floor("paths", 4000)
