"""Path-sensitive abstract interpretation of the extracted C program over finite
domains (constants, null-ness, disequalities), with call inlining and a rule
supplied monitor (typestate).  States are kept disjunctively and are merged
(widened) at loop heads and when a block collects too many of them."""
import re, sys, time
from collections import defaultdict, deque
import facts as F
sys.setrecursionlimit(20000)

I0 = ('i', 0)
I1 = ('i', 1)
INF = float('inf')

def I(n): return ('i', n)
def base_off(v): return (v[2], v[3][1]) if v[0] == 'op' and v[1] == '+' and v[3][0] == 'i' else (v, 0)

class Fn:
    __slots__ = ("name", "file", "line", "eline", "static", "variadic", "rt", "rts", "params", "entry", "exit",
                 "blocks", "raw", "callees", "order", "loopheads", "live_in", "refuse", "fields_written",
                 "vartypes", "addrtaken", "cleanups", "nblocks", "fnrefs", "fields_read")
    def __init__(self, d):
        self.raw = d
        for k in ("name", "file", "line", "eline", "static", "variadic", "rt", "params", "entry", "exit"):
            setattr(self, k, d[k])
        self.rts = d.get('rts', self.rt)
        self.blocks = {b['b']: b for b in d['blocks']}
        self.nblocks = len(self.blocks)
        self.callees = []          # (name, node)
        self.fields_written = set()
        self.fields_read = set()
        self.vartypes = {}
        self.addrtaken = set()
        self.cleanups = set()
        self.fnrefs = set()
        for p in self.params:
            self.vartypes[p['id']] = p['t']
        self._scan()
        self._order()
        self._liveness()

    def key(self): return (self.file, self.name)

    def exprs(self):
        for b in self.blocks.values():
            for i, e in b['e']:
                yield b, i, e

    def _scan(self):
        for b, i, e in self.exprs():
            for x in walk_stmt(e):
                k = x['k']
                if k == 'call':
                    if x.get('fn'): self.callees.append((x['fn'], x))
                elif k == 'asg':
                    t = x['x']
                    if t['k'] == 'mem': self.fields_written.add(t['f'])
                    elif t['k'] == 'idx' and t['b']['k'] == 'mem': self.fields_written.add(t['b']['f'])
                elif k == 'un' and x['o'] in ('pre++', 'post++', 'pre--', 'post--'):
                    if x['x']['k'] == 'mem': self.fields_written.add(x['x']['f'])
                elif k == 'un' and x['o'] == '&':
                    t = x['x']
                    while t['k'] in ('mem', 'idx') and (t['k'] == 'idx' or not t['arrow']):
                        t = t['b']
                    if t['k'] == 'var' and 'id' in t: self.addrtaken.add(t['id'])
                elif k == 'fn':
                    self.fnrefs.add(x['n'])
                elif k == 'mem':
                    self.fields_read.add(x['f'])
            if e['k'] == 'decl':
                for d in e['d']:
                    if 'id' in d: self.vartypes[d['id']] = d['t']
                    if d['t'].endswith(']') and 'id' in d: self.addrtaken.add(d['id'])
                    if d.get('cu') and 'id' in d: self.cleanups.add(d['id'])

    def _order(self):
        seen, post, onstack = set(), [], set()
        self.loopheads = set()
        st = [(self.entry, iter(self.blocks[self.entry]['s']))]
        seen.add(self.entry); onstack.add(self.entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s is None: continue
                if s in onstack: self.loopheads.add(s)
                if s not in seen:
                    seen.add(s); onstack.add(s)
                    st.append((s, iter(self.blocks[s]['s'])))
                    break
            else:
                post.append(n); onstack.discard(n); st.pop()
        self.order = {n: i for i, n in enumerate(reversed(post))}

    def _liveness(self):
        use, defs = {}, {}
        for n, b in self.blocks.items():
            u, d = set(), set()
            for i, e in b['e']:
                for x in stmt_uses(e):
                    if x not in d: u.add(x)
                for x in stmt_defs(e): d.add(x)
                d.add(('r', i))
            t = b.get('t')
            if t and 'c' in t:
                for x in expr_uses(t['c']):
                    if x not in d: u.add(x)
            use[n], defs[n] = u, d
        live = {n: set() for n in self.blocks}
        changed = True
        preds = defaultdict(list)
        for n, b in self.blocks.items():
            for s in b['s']:
                if s is not None: preds[s].append(n)
        work = deque(self.blocks)
        while work:
            n = work.popleft()
            out = set()
            for s in self.blocks[n]['s']:
                if s is not None: out |= live[s]
            new = use[n] | (out - defs[n])
            if new != live[n]:
                live[n] = new
                work.extend(preds[n])
        self.live_in = live

def walk(e):
    if e is None: return
    yield e
    for k in ('x', 'y', 'b', 'c', 'f'):
        v = e.get(k)
        if isinstance(v, dict): yield from walk(v)
    for a in e.get('a', ()) or ():
        if isinstance(a, dict): yield from walk(a)

def walk_stmt(e):
    if e['k'] == 'decl':
        for d in e['d']:
            if 'x' in d: yield from walk(d['x'])
    elif isinstance(e.get('x'), dict):
        yield from walk(e['x'])

def expr_uses(e, lhs=False):
    """variable ids and ref ids read by an expression"""
    if e is None: return
    k = e['k']
    if k == 'var':
        if 'id' in e and not lhs: yield e['id']
        return
    if k == 'ref':
        yield ('r', e['i']); return
    if k in ('bin', 'cond') and 'lid' in e:
        yield ('L', e['lid'])
    if k == 'asg':
        if e['o'] == '=' and e['x']['k'] == 'var':
            yield from expr_uses(e['y']); return
    for kk in ('x', 'y', 'b', 'c', 'f'):
        v = e.get(kk)
        if isinstance(v, dict): yield from expr_uses(v)
    for a in e.get('a', ()) or ():
        if isinstance(a, dict): yield from expr_uses(a)

def stmt_uses(e):
    if e['k'] == 'decl':
        for d in e['d']:
            if 'x' in d: yield from expr_uses(d['x'])
    elif isinstance(e.get('x'), dict):
        yield from expr_uses(e['x'])

def stmt_defs(e):
    if e['k'] == 'decl':
        for d in e['d']:
            if 'id' in d: yield d['id']
        return
    if isinstance(e.get('x'), dict) and e['k'] == 'ex':
        x = e['x']
        if x['k'] == 'asg' and x['o'] == '=' and x['x']['k'] == 'var' and 'id' in x['x']:
            yield x['x']['id']

class Program:
    def __init__(self, data=None):
        self.data = data or F.extract()
        self.fns = {}
        self.byname = defaultdict(list)
        for k, d in self.data['fns'].items():
            f = Fn(d)
            self.fns[k] = f
            self.byname[f.name].append(f)
        self.enums = {}
        self.enum_types = defaultdict(dict)
        for (file, name, n), e in self.data['enums'].items():
            for c, v in e['v'].items():
                self.enums[c] = v
            self.enum_types[name] = e['v']
        self.records = {}
        for (file, name), r in self.data['records'].items():
            self.records[(file, name)] = r
        self.globals = self.data['globals']
        self._relcache = {}
        self._signals = None

    GLIB = {"G_IO_STATUS_ERROR": 0, "G_IO_STATUS_NORMAL": 1, "G_IO_STATUS_EOF": 2, "G_IO_STATUS_AGAIN": 3,
            "G_IO_IN": 1, "G_IO_PRI": 2, "G_IO_OUT": 4, "G_IO_ERR": 8, "G_IO_HUP": 16, "G_IO_NVAL": 32}
    def enum(self, name):
        if name in self.GLIB: return self.GLIB[name]
        if name not in self.enums:
            raise F.AnalysisBroken("enumerator %s not found in the sources" % name)
        return self.enums[name]

    def resolve(self, name, file=None):
        c = self.byname.get(name)
        if not c: return None
        if file:
            for f in c:
                if f.file == file: return f
        pub = [f for f in c if not f.static]
        if len(pub) == 1: return pub[0]
        if len(c) == 1: return c[0]
        if pub:
            return pub[0]
        return None

    def need(self, name, file=None):
        """anchor lookup: a vanished anchor is an error of the analysis"""
        for f in self.byname.get(name, ()):
            if file is None or f.file.endswith(file): return f
        raise F.AnalysisBroken("anchor function %s%s not found" % (name, " in " + file if file else ""))

    def need_vfunc(self, file, suffix_names): pass

    def callees(self, fn):
        out = []
        for n, node in fn.callees:
            g = self.resolve(n, fn.file)
            if g: out.append(g)
        return out

    def reach_calls(self, pred, key):
        """set of functions from which a call/field write accepted by pred is
        reachable through direct calls"""
        if key in self._relcache: return self._relcache[key]
        rel = set()
        rev = defaultdict(set)
        for k, f in self.fns.items():
            if pred(f): rel.add(k)
            for g in self.callees(f): rev[g.key()].add(k)
        work = list(rel)
        while work:
            k = work.pop()
            for p in rev[k]:
                if p not in rel:
                    rel.add(p); work.append(p)
        self._relcache[key] = rel
        return rel

    def signals(self):
        """file -> {index: signal name} from the class initialisers"""
        if self._signals is None:
            s = defaultdict(dict)
            for f in self.fns.values():
                refs = {}
                for b, i, e in f.exprs():
                    if e['k'] == 'ex': refs[i] = e['x']
                for b, i, e in f.exprs():
                    if e['k'] != 'ex' or e['x']['k'] != 'asg': continue
                    x = e['x']
                    if x['x']['k'] == 'idx' and x['x']['b'].get('n') == 'signals':
                        y = x['y']
                        while y['k'] in ('ref', 'cast'): y = refs.get(y['i'], {'k': '?'}) if y['k'] == 'ref' else y['x']
                        if y['k'] == 'call' and y.get('fn', '').startswith('g_signal_new'):
                            a = y['a'][0]
                            if a['k'] == 'str' and x['x']['x']['k'] == 'int':
                                s[f.file][x['x']['x']['v']] = a['v']
                        elif y['k'] == 'call' and y.get('fn') == 'g_signal_lookup' and x['x']['x']['k'] == 'int':
                            s[f.file][x['x']['x']['v']] = y['a'][0].get('v')
            self._signals = s
        return self._signals

# ---------------------------------------------------------------- constraints
# constraint on a value: (lo, hi, excluded frozenset)
TOPC = (-INF, INF, frozenset())

class St:
    __slots__ = ("env", "facts", "mon", "trace", "wk")
    def __init__(self, env=None, facts=None, mon=None, trace=None):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.mon = mon
        self.trace = trace
        self.wk = None
    def copy(self):
        return St(dict(self.env), dict(self.facts), self.mon, self.trace)
    def key(self):
        return (frozenset(self.env.items()), frozenset(self.facts.items()), self.mon)

def val_mentions(v, pred):
    if pred(v): return True
    if isinstance(v, tuple):
        for x in v[1:]:
            if isinstance(x, tuple) and val_mentions(x, pred): return True
    return False

def subst(v, old, new):
    if v == old: return new
    if isinstance(v, tuple):
        ch = False
        out = []
        for x in v:
            if isinstance(x, tuple):
                y = subst(x, old, new)
                if y is not x: ch = True
                out.append(y)
            else: out.append(x)
        if ch: return tuple(out)
    return v

_camel = {}
def type_of_get_type(name):
    if name in _camel: return _camel[name]
    n = name[:-9] if name.endswith('_get_type') else name
    r = n.replace('_', '').lower()
    _camel[name] = r
    return r

def priv_type(t):
    m = re.search(r'_?(\w+?)(Private)\b', t)
    if m: return m.group(1).lower().replace('_', '')
    return None

def unsigned(e):
    while e['k'] == 'cast' and 'unsigned' in e.get('t', '') and 't' in e['x'] and e['x']['k'] == 'int': e = e['x']
    return 'unsigned' in e.get('t', '') and not e.get('t', '').endswith('*')

ALLOC_NONNULL = {
    'g_strdup_printf', 'g_string_new', 'g_string_new_len', 'g_string_sized_new', 'g_malloc', 'g_malloc0',
    'g_hash_table_new', 'g_hash_table_new_full', 'g_queue_new', 'g_object_new', 'g_error_new', 'g_malloc_n', 'g_malloc0_n',
    'g_error_copy', 'g_strndup', 'g_io_channel_unix_new', 'g_list_append', 'g_list_prepend', 'g_ptr_array_new', 'g_slice_alloc', 'g_slice_alloc0',
    'g_array_new', 'g_main_loop_new', 'g_strconcat', 'g_build_filename', 'g_string_free_and_steal', 'g_value_array_new',
    'g_iconv_open_x', 'g_new', 'g_new0',
}
NEG_UN = {'==': '!=', '!=': '=='}

class Limit(Exception):
    pass

class Rule:
    """base class of rules: override what is needed"""
    priv_env = False        # a field called priv is read like any other once it was set
    track_returns = True
    max_depth = 9
    block_cap = 250
    def init_mon(self): return ()
    def on_call(self, eng, st, fr, name, args, node):
        """None: default handling; else a list of (state, value)"""
        return None
    def after_call(self, eng, st, fr, name, args, node, val): pass
    def on_store(self, eng, st, fr, loc, val, node): pass
    def on_load(self, eng, st, fr, loc, node): pass
    def on_branch(self, eng, st, fr, node, truth): pass
    def on_return(self, eng, st, fr, val): pass
    def inline(self, eng, fn): return False
    def widen_key(self, eng, st, fr): return None
    def at_loophead(self, eng, st, fr, b): pass
    def from_loophead(self, eng, st, fr, b): pass
    nonnull = None

class Frame:
    __slots__ = ("fn", "id", "depth", "parent")
    def __init__(self, fn, depth, parent):
        self.fn = fn; self.depth = depth; self.parent = parent
        self.id = fn.name
        f = parent
        while f:
            if f.fn.name == fn.name and f.fn is not fn: self.id = fn.name + '@' + fn.file; break   # two static functions of one name
            f = f.parent
    def chain(self):
        f, o = self, []
        while f:
            o.append(f.fn.name); f = f.parent
        return o

class Engine:
    def __init__(self, prog, rule, pure=(), budget=4000000):
        self.p = prog
        self.rule = rule
        self.pure = set(pure)
        self.steps = 0
        self.budget = budget
        self.deadline = time.time() + 600
        self.inlined = set()
        self.visited_fns = set()
        self.call_sites = 0
        self.paths = 0
        self.cur_line = 0

    # ------------------------------------------------------------ values
    def cons(self, st, v):
        if v[0] == 'i': return (v[1], v[1], frozenset())
        c = st.facts.get(v)
        if c is None and v[0] == 'op' and v[1] == '+' and v[3][0] == 'i':
            l, h, ex = self.cons(st, v[2])
            k = v[3][1]
            return (l + k, h + k, frozenset(x + k for x in ex))
        return TOPC if c is None else c

    def canon(self, st, v):
        if v[0] == 'i': return v
        c = st.facts.get(v)
        if c and c[0] == c[1]: return ('i', c[0])
        return v

    def truth(self, st, v):
        """True / False / None"""
        if v[0] == 'i': return v[1] != 0
        if v[0] in ('s', 'fn', '&'): return True
        if v[0] == 'alloc': return True
        if v[0] in ('op', 'call') and self.rule.nonnull is not None and self.rule.nonnull(v): return True
        c = st.facts.get(v)
        if c:
            if c[0] == c[1]: return c[0] != 0
            if 0 in c[2] or c[0] > 0 or c[1] < 0: return True
        if v[0] == 'op' and v[1] in ('==', '<', '<='):
            r = self.cmp(st, v[1], v[2], v[3])
            if r is not None: return r
        if v[0] == 'op' and v[1] == '|':
            a, b = self.truth(st, v[2]), self.truth(st, v[3])
            if a or b: return True
            if a is False and b is False: return False
        if v[0] == 'not':
            t = self.truth(st, v[1])
            return None if t is None else not t
        return None

    def cmp(self, st, o, a, b):
        a, b = self.canon(st, a), self.canon(st, b)
        if a[0] == 'i' and b[0] == 'i':
            return {'==': a[1] == b[1], '<': a[1] < b[1], '<=': a[1] <= b[1]}[o]
        if a == b:
            return o != '<'
        if a[0] == 'op' or b[0] == 'op':        # x + j against x + k
            (x, j), (y, k) = base_off(a), base_off(b)
            if x == y: return {'==': j == k, '<': j < k, '<=': j <= k}[o]
        if o == '==':
            for x, y in ((a, b), (b, a)):
                if y[0] == 'i':
                    if y[1] == 0:
                        t = self.truth_basic(st, x)
                        if t is True: return False
                    lo, hi, ex = self.cons(st, x)
                    if y[1] < lo or y[1] > hi or y[1] in ex: return False
                    if lo == hi == y[1]: return True
            if a[0] == 's' and b[0] == 's': return None
            if a[0] == 'fn' and b[0] == 'fn': return a == b
            return None
        (al, ah, _), (bl, bh, _) = self.cons(st, a), self.cons(st, b)
        if o == '<':
            if ah < bl: return True
            if al >= bh: return False
        else:
            if ah <= bl: return True
            if al > bh: return False
        return None

    def truth_basic(self, st, v):
        if v[0] in ('s', 'fn', '&', 'alloc'): return True
        if v[0] in ('op', 'call') and self.rule.nonnull is not None and self.rule.nonnull(v): return True
        c = st.facts.get(v)
        if c and (0 in c[2] or c[0] > 0 or c[1] < 0): return True
        if v[0] == 'not':
            return None
        return None

    def mkop(self, st, o, a, b):
        a, b = self.canon(st, a), self.canon(st, b)
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                if o == '+': return I(x + y)
                if o == '-': return I(x - y)
                if o == '*': return I(x * y)
                if o == '/': return I(int(x / y)) if y else ('op', o, a, b)
                if o == '%': return I(x % y) if y else ('op', o, a, b)
                if o == '&': return I(x & y)
                if o == '|': return I(x | y)
                if o == '^': return I(x ^ y)
                if o == '<<': return I(x << y) if 0 <= y < 64 else ('op', o, a, b)
                if o == '>>': return I(x >> y) if 0 <= y < 64 else ('op', o, a, b)
            except Exception:
                pass
        if o in ('==', '!=', '<', '>', '<=', '>='):
            neg = False
            if o == '!=': o, neg = '==', True
            elif o == '>': o, a, b = '<', b, a
            elif o == '>=': o, a, b = '<=', b, a
            if o == '==' and (a[0] == 'i' or (b[0] != 'i' and repr(a) > repr(b))): a, b = b, a
            # boolean compared with a constant
            if o == '==' and b == I0 and a[0] == 'not':
                v = a[1] if not neg else a
                return self.boolify(st, v) if not neg else a
            r = self.cmp(st, o, a, b)
            if r is not None: return I1 if (r != neg) else I0
            if o == '<=' and a[0] != 'i' and b[0] != 'i':      # a <= b is !(b < a)
                o, a, b, neg = '<', b, a, not neg
            v = ('op', o, a, b)
            return ('not', v) if neg else v
        if o in ('&', '|', '+', '*') and (a[0] == 'i'): a, b = b, a
        if o == '&' and b == I0: return I0
        if o in ('|', '+', '-', '^', '<<', '>>') and b == I0: return a
        if o == '*' and b == I1: return a
        if o == '&' and b[0] == 'i' and a[0] == 'op' and a[1] == '|' and a[3][0] == 'i':
            if (a[3][1] & b[1]) == b[1]: return b
            if (a[3][1] & b[1]) == 0: return self.mkop(st, '&', a[2], b)
        if o == '&' and b[0] == 'i' and a[0] == 'op' and a[1] == '&' and a[3][0] == 'i':
            return self.mkop(st, '&', a[2], I(a[3][1] & b[1]))
        if o == '+' and b[0] == 'i' and a[0] == 'op' and a[1] == '+' and a[3][0] == 'i':
            return self.mkop(st, '+', a[2], I(a[3][1] + b[1]))
        if o == '-' and b[0] == 'i':
            return self.mkop(st, '+', a, I(-b[1]))
        if o == '-':
            (x, j), (y, k) = base_off(a), base_off(b)
            if x == y: return I(j - k)
            if x[0] == 'op' and x[1] == '+':
                if x[2] == y: return self.mkop(st, '+', x[3], I(j - k))
                if x[3] == y: return self.mkop(st, '+', x[2], I(j - k))
        return ('op', o, a, b)

    def boolify(self, st, v):
        t = self.truth(st, v)
        if t is not None: return I1 if t else I0
        if v[0] == 'op' and v[1] in ('==', '<', '<='): return v
        if v[0] == 'not': return v
        return ('not', ('not', v))

    def mknot(self, st, v):
        t = self.truth(st, v)
        if t is not None: return I0 if t else I1
        if v[0] == 'not' :
            w = v[1]
            if w[0] == 'not' or (w[0] == 'op' and w[1] in ('==', '<', '<=')): return w
            return ('not', v)
        return ('not', v)

    # refine: returns False when infeasible
    def assume(self, st, v, truth):
        v = self.canon(st, v)
        t = self.truth(st, v)
        if t is not None: return t == truth
        if v[0] == 'not': return self.assume(st, v[1], not truth)
        if v[0] == 'op' and v[1] == '==':
            a, b = self.canon(st, v[2]), self.canon(st, v[3])
            if a[0] == 'i': a, b = b, a
            if b[0] == 'i':
                return self.constrain(st, a, eq=b[1]) if truth else self.constrain(st, a, ne=b[1])
            if truth:
                # equal unknowns: share constraints
                ca, cb = self.cons(st, a), self.cons(st, b)
                c = (max(ca[0], cb[0]), min(ca[1], cb[1]), ca[2] | cb[2])
                if c[0] > c[1]: return False
                for x in (a, b):
                    if x[0] not in ('s', 'fn', '&') and c != TOPC: st.facts[x] = c
            st.facts[v] = (1, 1, frozenset()) if truth else (0, 0, frozenset())
            return True
        if v[0] == 'op' and v[1] in ('<', '<='):
            a, b = self.canon(st, v[2]), self.canon(st, v[3])
            if b[0] == 'i':
                k = b[1] - (1 if v[1] == '<' else 0)
                return self.constrain(st, a, hi=k) if truth else self.constrain(st, a, lo=k + 1)
            if a[0] == 'i':
                k = a[1] + (1 if v[1] == '<' else 0)
                return self.constrain(st, b, lo=k) if truth else self.constrain(st, b, hi=k - 1)
            st.facts[v] = (1, 1, frozenset()) if truth else (0, 0, frozenset())
            return True
        if truth:
            return self.constrain(st, v, ne=0)
        return self.constrain(st, v, eq=0)

    def constrain(self, st, v, eq=None, ne=None, lo=None, hi=None):
        if v[0] == 'i':
            x = v[1]
            if eq is not None: return x == eq
            if ne is not None: return x != ne
            if lo is not None: return x >= lo
            return x <= hi
        if v[0] in ('s', 'fn', '&', 'alloc'):
            if eq is not None: return eq != 0
            return True
        if v[0] == 'op' and v[1] == '+' and v[3][0] == 'i':
            k = v[3][1]
            return self.constrain(st, v[2], eq=None if eq is None else eq - k, ne=None if ne is None else ne - k,
                                  lo=None if lo is None else lo - k, hi=None if hi is None else hi - k)
        if v[0] == 'op' and v[1] in ('==', '<', '<='):
            # a comparison used as an integer
            if eq is not None and eq in (0, 1): return self.assume(st, v, bool(eq))
            if ne is not None and ne in (0, 1): return self.assume(st, v, not bool(ne))
        if v[0] == 'not':
            if eq is not None and eq in (0, 1): return self.assume(st, v[1], not bool(eq))
            if ne is not None and ne in (0, 1): return self.assume(st, v[1], bool(ne))
        l, h, ex = st.facts.get(v, TOPC)
        if eq is not None:
            if eq < l or eq > h or eq in ex: return False
            l = h = eq; ex = frozenset()
        if ne is not None:
            if l == h == ne: return False
            if ne == l: l = l + 1
            elif ne == h: h = h - 1
            else: ex = ex | {ne}
        if lo is not None: l = max(l, lo)
        if hi is not None: h = min(h, hi)
        while l in ex: l += 1
        while h in ex: h -= 1
        if l > h: return False
        ex = frozenset(x for x in ex if l < x < h)
        st.facts[v] = (l, h, ex)
        if eq == 0 and v[0] == 'op' and v[1] == '|':
            return self.constrain(st, v[2], eq=0) and self.constrain(st, v[3], eq=0)
        if v[0] == 'op' and v[1] == '&' and v[3][0] == 'i' and (ne == 0 or (eq is not None and eq != 0)):
            self.constrain(st, v[2], ne=0)
        return True

    # ------------------------------------------------------------ memory
    def read(self, st, loc):
        v = st.env.get(loc)
        if v is not None: return self.canon(st, v)
        if loc[0] == 'f' and loc[2] == 'priv':
            pass
        return self.canon(st, ('ld', loc))

    def deref(self, v):
        if v[0] == '&': return v[1]
        return ('d', v)

    def store(self, st, fr, loc, val, node):
        self.overwritten = st.env.get(loc)
        st.env[loc] = val
        # invalidate sub-locations of an aggregate
        if loc[0] in ('v',):
            sub = [l for l in st.env if l != loc and l[0] in ('f', 'x') and l[1] == loc]
            for l in sub: del st.env[l]
        self.rule.on_store(self, st, fr, loc, val, node)

    def fresh(self, st, fr, node_id, tag='r'):
        s = ('sym', fr.fn.name, node_id, tag)
        old = None
        pred = lambda v: v == s
        for l, v in list(st.env.items()):
            if val_mentions(v, pred) or val_mentions(l, pred):
                old = ('sym', fr.fn.name, node_id, tag + "'")
                break
        else:
            if not any(val_mentions(f, pred) for f in st.facts):
                return s
            for f in [f for f in st.facts if val_mentions(f, pred)]: del st.facts[f]
            st.mon = self.subst_mon(st.mon, s, ('sym', fr.fn.name, node_id, tag + "'"))
            return s
        olds = old
        for f in [f for f in st.facts if val_mentions(f, lambda v: v == olds)]: del st.facts[f]
        env = {}
        for l, v in st.env.items():
            env[subst(l, s, olds)] = subst(v, s, olds)
        st.env = env
        st.facts = {subst(f, s, olds): c for f, c in st.facts.items()}
        st.mon = self.subst_mon(st.mon, s, olds)
        return s

    def subst_mon(self, mon, old, new):
        if isinstance(mon, tuple):
            if any(isinstance(x, frozenset) for x in mon):
                return tuple(self.subst_mon(x, old, new) if isinstance(x, (tuple, frozenset)) else x for x in mon)
            return subst(mon, old, new)
        if isinstance(mon, frozenset): return frozenset(subst(x, old, new) if isinstance(x, tuple) else x for x in mon)
        return mon

    def havoc(self, st, fr, loc, node_id, tag):
        st.env[loc] = self.fresh(st, fr, node_id, tag)
        for l in [l for l in st.env if l != loc and l[0] in ('f', 'x') and self.within(l, loc)]:
            del st.env[l]
        return st.env[loc]

    def within(self, l, base):
        while l[0] in ('f', 'x'):
            l = l[1]
            if l == base: return True
        return False

    # ------------------------------------------------------------ expressions
    # evaluation may fork (calls): it works on a list of states via generators;
    # calls are CFG elements, so only the call element forks.
    def loc_of(self, st, fr, e):
        k = e['k']
        if k == 'var':
            if 'g' in e: return ('g', fr.fn.file, e['n'])
            return ('v', fr.id, e['id'], e['n'])
        if k == 'mem':
            if e['arrow']:
                b = self.ev(st, fr, e['b'])
                base = self.deref(b)
                if e['f'] == 'priv':
                    pass
                return ('f', base, e['f'])
            return ('f', self.loc_of(st, fr, e['b']), e['f'])
        if k == 'idx':
            b = e['b']
            i = self.ev(st, fr, e['x'])
            if b['k'] in ('var', 'mem') and b.get('t', '').endswith(']'):
                return ('x', self.loc_of(st, fr, b), i)
            v = self.ev(st, fr, b)
            base = self.deref(v)
            if base[0] == 'x' and base[2][0] == 'i' and i[0] == 'i':
                return ('x', base[1], I(base[2][1] + i[1]))
            if i == I0 and base[0] == 'd': return base
            return ('x', base, i)
        if k == 'un' and e['o'] == '*':
            v = self.ev(st, fr, e['x'])
            return self.deref(v)
        if k == 'cast': return self.loc_of(st, fr, e['x'])
        if k == 'ref':
            r = st.env.get(('r', fr.id, e['i']))
            if r is not None:
                if r[0] == 'ld': return r[1]
                return ('d', ('&v', r))
            return ('d', ('sym', fr.fn.name, e['i'], 'ref'))
        if k in ('cond', 'stmtexpr', 'complit', 'call'):
            return ('d', ('lv', self.ev(st, fr, e)))
        return ('d', ('sym', fr.fn.name, id(e) % 100000, 'loc'))

    def ev(self, st, fr, e):
        k = e['k']
        if k == 'int': return ('i', e['v'])
        if k == 'var':
            loc = self.loc_of(st, fr, e)
            if e.get('t', '').endswith(']'): return ('&', loc)
            self.rule.on_load(self, st, fr, loc, e)
            if 'g' in e and loc not in st.env:
                return self.canon(st, ('ld', loc))
            return self.read(st, loc)
        if k == 'ref':
            v = st.env.get(('r', fr.id, e['i']))
            if v is not None: return self.canon(st, v)
            return ('sym', fr.fn.name, e['i'], 'ref')
        if k == 'mem':
            if e['f'] == 'priv' and e['arrow']:
                b = self.ev(st, fr, e['b'])
                loc = ('f', self.deref(b), 'priv')
                if loc not in st.env or not self.rule.priv_env:
                    pt = priv_type(e.get('t', '')) or e.get('rec', '').lower()
                    return ('priv', b, pt)
            loc = self.loc_of(st, fr, e)
            if e.get('t', '').endswith(']'): return ('&', loc)
            self.rule.on_load(self, st, fr, loc, e)
            return self.read(st, loc)
        if k == 'str': return ('s', e['v'])
        if k == 'fn': return ('fn', e['n'])
        if k == 'asg':
            return self.assign(st, fr, e)
        if k == 'bin':
            o = e['o']
            if o in ('&&', '||'):
                rec = st.env.get(('L', fr.id, e['lid']))
                if rec is not None:
                    # an enclosing operator skipped by its left operand keeps the record of an earlier iteration
                    if e['x']['k'] == 'bin' and e['x']['o'] in ('&&', '||') or e['x']['k'] == 'ref':
                        t = self.truth(st, self.ev(st, fr, e['x']))
                        if t is (o == '||'): return I0 if o == '&&' else I1
                    if o == '&&' and rec == I0: return I0
                    if o == '||' and rec == I1: return I1
                    return self.boolify(st, self.ev(st, fr, e['y']))
                a = self.ev(st, fr, e['x']); b = self.ev(st, fr, e['y'])
                ta, tb = self.truth(st, a), self.truth(st, b)
                if o == '&&':
                    if ta is False or tb is False: return I0
                    if ta and tb: return I1
                else:
                    if ta or tb: return I1
                    if ta is False and tb is False: return I0
                return ('op', o, a, b)
            a = self.ev(st, fr, e['x']); b = self.ev(st, fr, e['y'])
            if o in ('<', '<=', '>', '>='):
                if b[0] == 'i' and b[1] in (0, 1) and unsigned(e['x']):
                    r = {('>', 0): '!=', ('>=', 1): '!=', ('<=', 0): '==', ('<', 1): '=='}.get((o, b[1]))
                    if r: return self.mkop(st, r, a, I0)
                elif a[0] == 'i' and a[1] in (0, 1) and unsigned(e['y']):
                    r = {('<', 0): '!=', ('<=', 1): '!=', ('>=', 0): '==', ('>', 1): '=='}.get((o, a[1]))
                    if r: return self.mkop(st, r, b, I0)
            return self.mkop(st, o, a, b)
        if k == 'un':
            o = e['o']
            if o == '!': return self.mknot(st, self.ev(st, fr, e['x']))
            if o == '&':
                x = e['x']
                loc = self.loc_of(st, fr, x)
                if loc[0] == 'd': return loc[1]
                return ('&', loc)
            if o == '*':
                loc = self.loc_of(st, fr, e)
                if e.get('t', '').endswith(']'): return ('&', loc)
                self.rule.on_load(self, st, fr, loc, e)
                return self.read(st, loc)
            if o in ('pre++', 'post++', 'pre--', 'post--'):
                loc = self.loc_of(st, fr, e['x'])
                old = self.read(st, loc)
                new = self.mkop(st, '+', old, I(1 if '++' in o else -1))
                self.store(st, fr, loc, new, e)
                return new if o.startswith('pre') else old
            v = self.ev(st, fr, e['x'])
            if o == '-':
                if v[0] == 'i': return I(-v[1])
                return ('un', '-', v)
            if o == '~':
                if v[0] == 'i': return I(~v[1])
                return ('un', '~', v)
            return v
        if k == 'idx':
            loc = self.loc_of(st, fr, e)
            if e.get('t', '').endswith(']'): return ('&', loc)
            self.rule.on_load(self, st, fr, loc, e)
            return self.read(st, loc)
        if k == 'cond':
            rec = st.env.get(('L', fr.id, e['lid']))
            if rec == I1: return self.ev(st, fr, e['x'])
            if rec == I0: return self.ev(st, fr, e['y'])
            t = self.truth(st, self.ev(st, fr, e['c']))
            if t is True: return self.ev(st, fr, e['x'])
            if t is False: return self.ev(st, fr, e['y'])
            return ('sym', fr.fn.name, ('c', e['lid']), 'cond')
        if k == 'cast':
            v = self.ev(st, fr, e['x'])
            if v[0] == 'i':
                t = e['t']
                n = v[1]
                w = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32}.get(t)
                if w:
                    n &= (1 << w) - 1
                    if not t.startswith('unsigned') and n >= 1 << (w - 1): n -= 1 << w
                elif t in ('unsigned long', 'unsigned long long') and n < 0: n += 1 << 64
                return I(n)
            return v
        if k == 'seq':
            self.ev(st, fr, e['x'])
            return self.ev(st, fr, e['y'])
        if k == 'stmtexpr':
            if 'x' in e: return self.ev(st, fr, e['x'])
            return I0
        if k == 'init':
            return ('init', fr.fn.name, e.get('l', 0))
        if k == 'zero': return I0
        if k == 'float': return ('float', e['v'])
        if k == 'call':
            # nested call that is not its own element (should not happen)
            return self.fresh(st, fr, ('n', e['l']), e.get('fn') or '?')
        if k == 'vaarg':
            return self.fresh(st, fr, ('va', e['l']), 'va')
        return ('sym', fr.fn.name, (k, e.get('l', 0)), 'unk')

    def assign(self, st, fr, e):
        o = e['o']
        val = self.ev(st, fr, e['y'])
        loc = self.loc_of(st, fr, e['x'])
        if o != '=':
            old = self.read(st, loc)
            val = self.mkop(st, o[:-1], old, val)
        if val[0] == 'init': self.clear_sub(st, loc)
        self.store(st, fr, loc, val, e)
        return val

    def clear_sub(self, st, loc):
        for l in [l for l in st.env if self.within(l, loc)]: del st.env[l]

    def exec_init(self, st, fr, loc, x):
        """aggregate initialiser of a local"""
        self.clear_sub(st, loc)
        fs = x.get('fs')
        for n, a in enumerate(x['a']):
            sub = ('f', loc, fs[n]) if fs and n < len(fs) else ('x', loc, I(n))
            if a is None: continue
            if a['k'] == 'init': self.exec_init(st, fr, sub, a)
            else: st.env[sub] = self.ev(st, fr, a)

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, node, elem_id):
        """returns list of (state, value)"""
        self.call_sites += 1
        name = node.get('fn')
        args = [self.ev(st, fr, a) for a in node['a']]
        if name is None:
            fv = self.ev(st, fr, node['f'])
            if fv[0] == 'fn': name = fv[1]
            elif fv[0] == '&' : name = None
        nm = name or '*indirect*'
        if name is None:
            fe = node['f']
            if fe['k'] == 'un' and fe['o'] == '*': fe = fe['x']
            if fe['k'] == 'mem': nm = '*' + fe['f']
            elif fv[0] == 'ld' and fv[1][0] == 'f': nm = '*' + fv[1][2]
        r = self.rule.on_call(self, st, fr, nm, args, node)
        if r is not None: return r
        res = self.builtin(st, fr, nm, args, node, elem_id)
        if res is not None:
            for s, v in res: self.rule.after_call(self, s, fr, nm, args, node, v)
            return res
        fn = self.p.resolve(nm, fr.fn.file) if name else None
        if fn is not None and fr.depth < self.rule.max_depth and fn.name not in fr.chain() \
                and self.rule.inline(self, fn):
            res = self.call_fn(st, fr, fn, args)
            for s, v in res: self.rule.after_call(self, s, fr, nm, args, node, v)
            return res
        if name in self.pure:
            return [(st, self.canon(st, ('call', nm) + tuple(args)))]
        # opaque: havoc what is passed by address
        for n, a in enumerate(args):
            if a[0] == '&' and a[1][0] != 'g':
                self.havoc(st, fr, a[1], elem_id, 'out%d' % n)
        v = self.fresh(st, fr, elem_id, nm)
        if nm in ALLOC_NONNULL: st.facts[v] = (-INF, INF, frozenset([0]))
        self.rule.after_call(self, st, fr, nm, args, node, v)
        return [(st, v)]

    def builtin(self, st, fr, nm, args, node, elem_id):
        if nm == 'g_type_instance_get_private':
            g = args[1]
            t = '?'
            if g[0] == 'call': t = type_of_get_type(g[1])
            return [(st, ('priv', args[0], t))]
        if nm.endswith('_get_instance_private'):
            return [(st, ('priv', args[0], type_of_get_type(nm[:-len('_get_instance_private')])))]
        if nm.endswith('_get_type') and not args and nm.startswith(('milter_', 'g_', 'smfi_')):
            return [(st, ('call', nm))]
        if nm.isupper() and len(args) == 1 and not nm.endswith('_CLASS') and 'IS_' not in nm:
            return [(st, args[0])]
        if nm.startswith('MILTER_') and '_IS_' in nm and len(args) == 1:
            return [(st, self.canon(st, ('call', nm, args[0])))]
        if nm in ('g_object_ref', 'g_error_copy_', 'g_value_ref', '__builtin_expect', 'g_hash_table_ref', 'g_io_channel_ref', 'g_object_ref_sink', 'g_steal_pointer_'):
            return [(st, args[0])]
        if nm == 'g_steal_pointer' and args and args[0][0] == '&':
            v = self.read(st, args[0][1])
            self.store(st, fr, args[0][1], I0, node)
            return [(st, v)]
        if nm == 'g_strdup' or nm == 'g_strdup_inline':
            if args[0] == I0: return [(st, I0)]
            v = self.fresh(st, fr, elem_id, nm)
            t = self.truth(st, args[0])
            if t: self.constrain(st, v, ne=0); return [(st, v)]
            if t is None and self.rule.track_returns:
                s2 = st.copy()
                out = []
                if self.assume(st, args[0], True):
                    self.constrain(st, v, ne=0); out.append((st, v))
                if self.assume(s2, args[0], False): out.append((s2, I0))
                return out
            return [(st, v)]
        if nm in ('strcmp', 'g_strcmp0', 'g_str_equal', 'g_ascii_strcasecmp', 'strcasecmp'):
            a, b = args[0], args[1]
            if a[0] == 's' and b[0] == 's':
                eq = a[1] == b[1]
                return [(st, (I1 if eq else I0) if nm == 'g_str_equal' else (I0 if eq else I1))]
            return [(st, self.canon(st, ('call', nm, a, b)))]
        if nm == 'strlen' and args[0][0] == 's':
            return [(st, I(len(args[0][1])))]
        if nm == 'g_error_free' or nm == 'g_free':
            return None
        return None

    def call_fn(self, st, fr, fn, args):
        self.inlined.add(fn.key())
        nf = Frame(fn, fr.depth + 1 if fr else 0, fr)
        for p, a in zip(fn.params, args):
            st.env[('v', nf.id, p['id'], p['n'])] = a
        out = self.run_fn(st, nf)
        return out

    # ------------------------------------------------------------ functions
    def run_fn(self, st, fr):
        """execute fr.fn from state st; list of (state, return value)"""
        fn = fr.fn
        self.visited_fns.add(fn.key())
        results = {}
        seen = defaultdict(dict)       # block -> key -> True
        states = defaultdict(list)     # block -> states (for merging)
        pending = {}                   # block -> list of states
        import heapq
        heap = []
        def push(b, s):
            s2 = self.norm_entry(s, fr, b)
            if b in fn.loopheads: self.rule.at_loophead(self, s2, fr, b)
            k = s2.key()
            if k in seen[b]: return
            lst = states[b]
            if b in fn.loopheads and len(lst) >= 3 or len(lst) >= self.rule.block_cap:
                s2 = self.widen(s2, lst, fr, b)
                k = s2.key()
                if k in seen[b]: return
            seen[b][k] = True
            lst.append(s2)
            if len(lst) > 6 * self.rule.block_cap:
                raise Limit("too many states in %s block %d" % (fn.name, b))
            if b not in pending:
                pending[b] = []
                heapq.heappush(heap, (fn.order.get(b, 1 << 30), b))
            pending[b].append(s2)
        push(fn.entry, st)
        while heap:
            _, b = heapq.heappop(heap)
            todo = pending.pop(b)
            for s in todo:
                s = s.copy()
                if b in fn.loopheads: self.rule.from_loophead(self, s, fr, b)
                self.exec_block(fr, b, s, push, results)
        out = []
        for k, (s, v) in results.items():
            out.append((s, v))
        return out

    def norm_entry(self, s, fr, b):
        live = fr.fn.live_in[b]
        at = fr.fn.addrtaken
        env = {}
        fid = fr.id
        for l, v in s.env.items():
            t = l[0]
            if t == 'v' and l[1] == fid:
                if l[2] not in live and l[2] not in at: continue
            elif t == 'r' and l[1] == fid:
                if ('r', l[2]) not in live: continue
            elif t == 'L' and l[1] == fid:
                if ('L', l[2]) not in live: continue
            env[l] = v
        s.env = env
        self.gc(s)
        return s

    def gc(self, s):
        """drop facts about temporaries that nothing refers to any more"""
        if not s.facts: return
        need = set()
        for f in s.facts:
            for x in syms_of(f):
                if x[1] != 'param': need.add(x)
        if not need: return
        roots = set()
        for l, v in s.env.items():
            roots |= syms_of(v)
            if l[0] in ('f', 'x', 'd'): roots |= syms_of(l)
        if s.mon: roots |= syms_any(s.mon)
        if need <= roots: return
        dead = [f for f in s.facts if any(x[1] != 'param' and x not in roots for x in syms_of(f))]
        for f in dead: del s.facts[f]

    def widen(self, s, lst, fr, b):
        """merge s with the states already seen at this block (same monitor)"""
        wk = self.rule.widen_key(self, s, fr)
        if wk is not None:
            for x in lst:
                if x.wk is None: x.wk = self.rule.widen_key(self, x, fr)
        same = [x for x in lst if x.mon == s.mon and (wk is None or x.wk == wk)]
        if not same: return s
        last = same[-1]
        env = {}
        changed = []
        for l, v in s.env.items():
            if l in last.env:
                if last.env[l] == v: env[l] = v
                else:
                    env[l] = ('sym', fr.fn.name, ('w', b) + (l,), 'w'); changed.append(env[l])
            # absent in the other: unknown
        for l in last.env:
            if l not in s.env and l[0] in ('v', 'r', 'L'):
                pass
        nf = {}
        for f, c in s.facts.items():
            c2 = last.facts.get(f)
            if c2 is None: continue
            if f in changed: continue
            j = (min(c[0], c2[0]), max(c[1], c2[1]), frozenset(x for x in c[2] | c2[2]
                 if (x in c[2] or x < c[0] or x > c[1]) and (x in c2[2] or x < c2[0] or x > c2[1])))
            if j[0] != c2[0] and c2[0] != j[0]: j = (-INF, j[1], j[2])
            if j[1] != c2[1]: j = (j[0], INF, j[2])
            if j != TOPC: nf[f] = j
        return St(env, nf, s.mon, s.trace)

    def exec_block(self, fr, b, s, push, results):
        fn = fr.fn
        blk = fn.blocks[b]
        cur = [s]
        for eid, e in blk['e']:
            self.steps += len(cur)
            if self.steps > self.budget or time.time() > self.deadline:
                raise Limit("budget exhausted in %s" % fn.name)
            nxt = []
            for st in cur:
                k = e['k']
                self.cur_line = e.get('l', 0)
                if k == 'ex':
                    x = e['x']
                    if x['k'] == 'call':
                        res = self.do_call(st, fr, x, eid)
                        if x.get('noret'): continue
                        for s2, v in res:
                            s2.env[('r', fr.id, eid)] = v
                            nxt.append(s2)
                        continue
                    v = self.ev(st, fr, x)
                    st.env[('r', fr.id, eid)] = v
                    nxt.append(st)
                elif k == 'decl':
                    for d in e['d']:
                        if 'g' in d: continue
                        loc = ('v', fr.id, d['id'], d['n'])
                        if 'x' in d:
                            if d['x']['k'] == 'init':
                                self.exec_init(st, fr, loc, d['x'])
                                st.env[loc] = ('init', fn.name, e['l'])
                            else:
                                v = self.ev(st, fr, d['x'])
                                self.store(st, fr, loc, v, e)
                        else:
                            self.clear_sub(st, loc)
                            st.env[loc] = ('sym', fn.name, ('u', d['id']), 'uninit')
                    nxt.append(st)
                elif k == 'ret':
                    v = self.ev(st, fr, e['x']) if isinstance(e.get('x'), dict) else I0
                    st.env[('ret', fr.id)] = v
                    nxt.append(st)
                else:
                    nxt.append(st)
            cur = nxt
            if not cur: return
        if b == fn.exit:
            for st in cur:
                v = st.env.pop(('ret', fr.id), I0)
                v = self.canon(st, v)
                self.rule.on_return(self, st, fr, v)
                fid = fr.id
                st.env = {l: x for l, x in st.env.items()
                          if not (l[0] in ('v', 'r', 'L', 'ret') and l[1] == fid)
                          and not (l[0] in ('f', 'x') and root_frame(l) == fid)}
                st.env[('retv',)] = v
                self.gc(st)
                del st.env[('retv',)]
                k = (st.key(), v)
                if k not in results:
                    results[k] = (st, v)
                    self.paths += 1
            return
        succs = blk['s']
        t = blk.get('t')
        if blk.get('noret'): return
        if not t or 'c' not in t or len(succs) == 1 and t['k'] != 'SwitchStmt':
            for st in cur:
                for i, x in enumerate(succs):
                    if x is not None: push(x, st if i == len(succs) - 1 else st.copy())
            return
        if t['k'] == 'SwitchStmt':
            for st in cur:
                v = self.ev(st, fr, t['c'])
                cases, default = [], None
                for x in succs:
                    if x is None: continue
                    tb = fn.blocks[x]
                    if 'case' in tb: cases.append((x, tb['case'], tb.get('casen')))
                    else: default = x
                for x, (lo, hi), nmn in cases:
                    s2 = st.copy()
                    if lo == hi: ok = self.assume(s2, self.mkop(s2, '==', v, I(lo)), True)
                    else: ok = self.constrain(s2, v, lo=lo) and self.constrain(s2, v, hi=hi)
                    if ok:
                        s2.trace = (s2.trace, fn.name, t['l'], 'case %s' % (nmn or lo))
                        push(x, s2)
                if default is not None:
                    s2 = st.copy()
                    ok = True
                    for x, (lo, hi), nmn in cases:
                        for c in range(lo, min(hi, lo + 300) + 1):
                            ok = ok and self.assume(s2, self.mkop(s2, '==', v, I(c)), False)
                            if not ok: break
                        if not ok: break
                    if ok:
                        s2.trace = (s2.trace, fn.name, t['l'], 'default')
                        push(default, s2)
            return
        for st in cur:
            v = self.ev(st, fr, t['c'])
            for idx, truth in ((0, True), (1, False)):
                if idx >= len(succs) or succs[idx] is None: continue
                s2 = st.copy()
                if not self.assume(s2, v, truth): continue
                if 'lid' in t: s2.env[('L', fr.id, t['lid'])] = I1 if truth else I0
                if self.truth(st, v) is None:
                    s2.trace = (s2.trace, fn.name, t['l'], 'true' if truth else 'false')
                self.rule.on_branch(self, s2, fr, t, truth)
                push(succs[idx], s2)

    # ------------------------------------------------------------ entry
    def run(self, fn, args=None, setup=None):
        """analyse fn from an unconstrained state; returns [(state, ret)]"""
        st = St(mon=self.rule.init_mon())
        fr = Frame(fn, 0, None)
        for n, p in enumerate(fn.params):
            v = ('sym', 'param', p['n'], n)
            if args and p['n'] in args: v = args[p['n']]
            st.env[('v', fr.id, p['id'], p['n'])] = v
        if setup: setup(self, st)
        return self.run_fn(st, fr)

def root_frame(l):
    while l[0] in ('f', 'x'): l = l[1]
    if l[0] == 'v': return l[1]
    return None

_symcache = {}
EMPTY = frozenset()
def syms_of(v):
    """the 'sym' leaves of a value or location"""
    r = _symcache.get(v)
    if r is None:
        if v[0] == 'sym': r = frozenset([v])
        else:
            r = EMPTY
            for x in v[1:]:
                if isinstance(x, tuple) and x: r = r | syms_of(x)
        _symcache[v] = r
    return r

_symany = {}
def syms_any(m):
    if isinstance(m, tuple):
        r = _symany.get(m)
        if r is None:
            r = EMPTY
            if m and m[0] == 'sym': r = frozenset([m])
            for x in m:
                if isinstance(x, (tuple, frozenset)): r = r | syms_any(x)
            _symany[m] = r
        return r
    if isinstance(m, frozenset):
        r = EMPTY
        for x in m: r = r | syms_any(x)
        return r
    return EMPTY

def trace_str(trace, limit=14):
    out = []
    while trace and len(out) < limit:
        trace, fn, line, what = trace
        out.append("%s:%d %s" % (fn, line, what))
    return " <- ".join(out)
