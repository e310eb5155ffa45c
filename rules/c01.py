"""C01: packet decoders never touch a byte outside the packet."""
from absint import *
from facts import AnalysisBroken
import bounds, siglib
from bounds import Lin, const, sym, add, sub, scale, ZERO

ROOT_FILES = ["milter/core/milter-command-decoder.c", "milter/core/milter-reply-decoder.c",
              "milter/manager/milter-manager-reply-decoder.c", "milter/manager/milter-manager-control-command-decoder.c",
              "milter/manager/milter-manager-control-reply-decoder.c", "milter/manager/milter-manager-launch-command-decoder.c"]
DEC = "milter/core/milter-decoder.c"
N = sym('length')
PKT = ('reg', 'packet', N)

def vfunc(prog, file, slot):
    """function stored in a class slot by the class initialiser of a file"""
    for f in prog.fns.values():
        if f.file != file: continue
        for b, i, e in f.exprs():
            for x in walk_stmt(e):
                if x['k'] == 'asg' and x['x']['k'] == 'mem' and x['x']['f'] == slot and x['y']['k'] == 'fn':
                    g = prog.resolve(x['y']['n'], file)
                    if g is not None: return g
    return None

def make(prog, decl, skip_log=False):
    h = {}
    def getbuf(eng, st, fr, node, args, eid): return [(st, ('p', PKT, ZERO))]
    def getlen(eng, st, fr, node, args, eid): return [(st, N)]
    h['milter_decoder_get_buffer'] = getbuf
    h['milter_decoder_get_command_length'] = getlen
    def emit(eng, st, fr, node, args, eid):
        by_name = node['fn'] == 'g_signal_emit_by_name'
        if by_name: name, rest = (args[1][1].split('::')[0].replace('_', '-') if not isinstance(args[1], Lin) and args[1][0] == 's' else None), args[2:]
        else: name, rest = siglib.emitted(prog, fr.fn.file, node), args[3:]
        ts = None
        cands = [v for (f, n), v in decl.items() if n == name and (by_name or f == fr.fn.file)]
        for v in cands:
            if len(v) <= len(rest): ts = v if ts is None or len(v) == len(rest) else ts
        eng.emits.append((fr.fn.file, fr.fn.name, name))
        for i, a in enumerate(rest):
            if isinstance(a, Lin) or a[0] != 'p' or eng.size_of(a[1]) is None: continue
            if ts is not None and i >= len(ts): continue       # not collected
            nxt = ts[i + 1] if ts and i + 1 < len(ts) else None
            if (nxt == 'UINT64' or nxt == 'UINT' and ts[i] == 'POINTER') and i + 1 < len(rest):
                n = eng.lin(st, fr, rest[i + 1], (eid, i))
                eng.access(st, fr, node, a[1], a[2], n, 'handing to %s handlers' % name)
            else: eng.cstr(st, fr, node, a, "handing to '%s' handlers" % name)
        return [(st, eng.fresh(st, ('ret', fr.chain, eid), node.get('t')))]
    h['g_signal_emit'] = emit
    h['g_signal_emit_by_name'] = emit
    if skip_log: h['milter_logger_get_interesting_level'] = lambda eng, st, fr, node, args, eid: [(st, ZERO)]
    eng = bounds.Bounds(prog, hooks=h, inline=lambda fn: fn.file in ROOT_FILES or fn.file == DEC)
    load0 = eng.load
    def load(st, fr, l, t, node):
        if l[0] == 'l' and l[1][0] == 'f':
            if l[1][2] == 'command_length': return N
            if l[1][2] == 'str' and node.get('k') == 'mem' and node['b'].get('f') == 'buffer': return ('p', PKT, ZERO)
        return load0(st, fr, l, t, node)
    eng.load = load
    return eng

def opcodes(prog, fn):
    """constants the first byte is compared with"""
    out = set()
    fns = [fn]
    while not out and fns:      # the function itself, or the helper of its file which it leaves it to
      for g in fns:
        for b in g.blocks.values():
            if 'case' in b: out.add(b['case'][0])
      fns = [h for g in fns for h in prog.callees(g) if h.static and h.file == fn.file and h not in fns][:40] if len(fns) < 200 else []
    return out

def analyse(args):
    prog, decl, key, op = G['prog'], G['decl'], args[0], args[1]
    fn = prog.fns[key]
    eng = make(prog, decl)
    st = bounds.State({}, frozenset(), frozenset())
    eng.split = []
    eng.assume(st, add(N, const(-1))); eng.assume(st, sub(const(2**31 - 1), N))
    b0 = ('byte', PKT, ZERO)
    eng.keep.add(b0)
    if isinstance(op, int):
        eng.assume(st, add(sym(b0), const(-op))); eng.assume(st, sub(const(op), sym(b0)))
    else:
        prevs = [st]
        for o in op:
            nx = []
            for s in prevs:
                nx += eng.branch(s, ('c', '==', sym(b0), const(o)), False)
            prevs = nx
    states = [st] if isinstance(op, int) else prevs
    fr = bounds.Fr(fn, (), (fn.name,))
    for s in states:
        for n, p in enumerate(fn.params): s.env[('v', (), p['id'])] = sym(('param', p['n']))
        eng.run(s, fr)
    return (list(eng.sink), eng.fns, eng.steps, eng.calls, eng.emits)

G = {}
def run(ctx):
    p = ctx.prog
    decl = siglib.declared(p)
    ctx.explanation = ("The decode function of each decoder class is analysed for an arbitrary packet of length >= 1 by abstract interpretation "
        "with linear inequalities: every byte read, string read, copied block, fixed-size object write and every (pointer, size) or string handed "
        "to signal handlers is an obligation that must be entailed on all paths. The packet length precondition is checked where packets are dispatched.")
    G['prog'], G['decl'] = p, decl
    jobs = []
    for f in ROOT_FILES:
        fn = vfunc(p, f, 'decode')
        if fn is None: raise AnalysisBroken("no decode function is installed in the class of %s" % f)
        ctx.count("decoder classes")
        ops = sorted(opcodes(p, fn))
        jobs += [(fn.key(), o) for o in ops] + [(fn.key(), tuple(ops))]
    import runner
    res = runner.pmap(analyse, jobs)
    seen = {}
    for (key, op), (sink, fns, steps, calls, emits) in zip(jobs, res):
        ctx.fnset |= fns
        ctx.count("abstract steps", steps); ctx.count("call sites evaluated", calls)
        ctx.count("signal emissions", len(set(emits)))
        for ok, file, name, line, kind, what in sink:
            k = (file, name, line, kind)
            c = seen.setdefault(k, [0, 0, what])
            c[0] += 1
            if not ok: c[1] += 1; c[2] = what + " [packet type %s of %s]" % (chr(op) if isinstance(op, int) and 32 < op < 127 else op, key[0].split('/')[-1])
    for (file, name, line, kind), (n, bad, what) in sorted(seen.items()):
        ctx.count("access sites"); ctx.count("obligations", n)
        if bad: ctx.violation("%s:%s:%s" % (file, name, kind), file, line, what)
        else: ctx.sample("%s:%d %s: %s" % (file, line, name, what))
    ctx.count("packet types", len(jobs))
    ctx.floor("decoder classes", 6); ctx.floor("packet types", 40); ctx.floor("access sites", 40); ctx.floor("signal emissions", 40)
    precondition(ctx)
    ctx.assume("a packet is at most 2^31-1 bytes; arithmetic on lengths does not overflow a signed 64 bit integer; glib and libc functions read their "
               "string and block arguments as documented; handlers of a signal read no further than the string or (pointer, size) handed to them")

def precondition(ctx):
    """the dispatcher hands over a packet only when it is complete and at least one byte long"""
    p = ctx.prog
    fn = p.need('milter_decoder_decode')
    S = {n: p.enum(n) for n in ("IN_START", "IN_COMMAND_LENGTH", "IN_COMMAND_CONTENT", "IN_ERROR")}
    class R(Rule):
        def on_call(self, eng, st, fr, name, args, node):
            if name == 'milter_logger_get_interesting_level': return [(st, I0)]
            if name.startswith('g_string_') and args:
                ll = ('f', ('d', args[0]), 'len')
                eng.havoc(st, fr, ll, ('len', node['l']), 'len'); eng.constrain(st, st.env[ll], lo=0)
                return [(st, args[0])]
            if name == 'g_signal_emit':
                cl = [(l, v) for l, v in st.env.items() if l[0] == 'f' and l[2] == 'command_length']
                locs = [l for l, v in cl]
                base = None
                for l in st.env:
                    if l[0] == 'f' and l[2] == 'state': base = l[1]
                if base is None: base = ('d', ('priv', args[0], 'milterdecoder'))
                clv = eng.read(st, ('f', base, 'command_length'))
                buf = eng.read(st, ('f', base, 'buffer'))
                ln = eng.read(st, ('f', ('d', buf), 'len'))
                full = eng.cmp(st, '<', ln, clv)
                t = eng.truth(st, eng.mkop(st, '<', ln, clv))
                ok1 = eng.cons(st, clv)[0] >= 1 or eng.read(st, ('f', base, 'state')) == I(S["IN_COMMAND_CONTENT"])
                ctx.count("dispatch states")
                if not ok1: ctx.violation("dispatch:length", fn.file, node['l'], "a packet whose length is not known to be at least 1 is handed to the decoder (%s)" % trace_str(st.trace))
                if t is not False: ctx.violation("dispatch:complete", fn.file, node['l'], "a packet is handed to the decoder before all its bytes have arrived (%s)" % trace_str(st.trace))
            return None
        def on_store(self, eng, st, fr, loc, val, node):
            if loc[0] == 'f' and loc[2] == 'command_length' and eng.read(st, ('f', loc[1], 'state')) == I(S["IN_COMMAND_CONTENT"]):
                ctx.violation("content:length-changed", fn.file, node.get('l', 0), "the length of a packet changes while its content is awaited")
            if loc[0] == 'f' and loc[2] == 'state' and val == I(S["IN_COMMAND_CONTENT"]):
                clv = eng.read(st, ('f', loc[1], 'command_length'))
                ctx.count("content states entered")
                if eng.cons(st, clv)[0] < 1:
                    ctx.violation("content:length", fn.file, node.get('l', 0), "waiting for the content of a packet whose length is not known to be at least 1")
        def inline(self, eng, f): return f.file == DEC
    pn = fn.params[0]['n']
    base = ('d', ('priv', ('sym', 'param', pn, 0), 'milterdecoder'))
    for s, v in S.items():
        def setup(eng, st):
            st.env[('f', base, 'state')] = I(v)
            if s == "IN_COMMAND_CONTENT":
                st.facts[('ld', ('f', base, 'command_length'))] = (1, 2**31 - 1, frozenset())
        eng = Engine(p, R())
        eng.run(fn, None, setup)
        ctx.used(eng)
    ctx.floor("dispatch states", 1); ctx.floor("content states entered", 1)
