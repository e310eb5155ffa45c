"""C35: reader and writer hand the byte stream over unchanged; errors, end of stream and flushes are reported."""
from absint import *
from facts import AnalysisBroken
import childrenlib, siglib

RD, WR, AG = "milter/core/milter-reader.c", "milter/core/milter-writer.c", "milter/core/milter-agent.c"

def watchers(prog, file):
    """functions passed to milter_event_loop_watch_io in a file: name -> condition constant"""
    out = {}
    for f in prog.fns.values():
        if f.file != file: continue
        refs = {i: e['x'] for b, i, e in f.exprs() if e['k'] == 'ex'}
        for name, node in f.callees:
            if name == 'milter_event_loop_watch_io':
                c, h = siglib.strip(node['a'][2], refs), siglib.strip(node['a'][3], refs)
                if h['k'] == 'fn': out[h['n']] = const_of(c, refs)
    return out

def const_of(e, refs):
    e = siglib.strip(e, refs)
    if e['k'] == 'int': return e['v']
    if e['k'] == 'bin' and e['o'] == '|':
        a, b = const_of(e['x'], refs), const_of(e['y'], refs)
        return None if a is None or b is None else a | b
    return None

def calls(prog, fn, file, want, seen=None):
    seen = seen if seen is not None else set()
    if fn.key() in seen: return False
    seen.add(fn.key())
    for n, _ in fn.callees:
        if n == want: return True
        g = prog.resolve(n, file)
        if g is not None and g.file == file and calls(prog, g, file, want, seen): return True
    return False

class IO(Rule):
    block_cap = 3000
    """mon: tuple of events"""
    max_depth = 11
    def __init__(self, prog, file, tname):
        self.p, self.file, self.tname = prog, file, tname
        self.idfield = {}
        self.stored_len = set()
    def inline(self, eng, f): return f.file == self.file
    def ev(self, st, *e):
        if sum(1 for x in st.mon if x[0] == e[0]) < 2: st.mon = st.mon + (e,)
    def widen_key(self, eng, st, fr): return frozenset((l, v) for l, v in st.env.items() if v in (I0, I1) and l[0] in 'vf')
    def set_err(self, eng, st, fr, a, node, forks):
        if a[0] != '&': return [st]
        out = []
        for e in forks:
            s = st.copy()
            eng.havoc(s, fr, a[1], ('err', node['l'], e), 'err')
            eng.constrain(s, s.env[a[1]], **({'ne': 0} if e else {'eq': 0}))
            out.append((e, s))
        return out
    def on_call(self, eng, st, fr, name, args, node):
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
        if name == 'milter_event_loop_watch_io' and args[3][0] == 'fn':
            self.ev(st, 'watch', args[3][1])
            v = ('sym', 'watch', args[3][1], 0)
            st.facts[v] = (1, INF, frozenset())     # registering succeeds
            return [(st, v)]
        if name == 'milter_event_loop_remove': self.ev(st, 'remove', args[1]); return [(st, I1)]
        if name in ('g_set_error', 'g_set_error_literal', 'milter_utils_set_error_with_sub_error'):
            if args[0][0] == '&':
                return [(s, I0) for e, s in self.set_err(eng, st, fr, args[0], node, (1,))]
            self.ev(st, 'set-error'); return [(st, I0)]
        if name == 'g_propagate_error': self.ev(st, 'set-error'); return [(st, I0)]
        if name == 'milter_error_emittable_emit': self.ev(st, 'error'); return [(st, I0)]
        if name == 'milter_finished_emittable_emit': self.ev(st, 'finished'); return [(st, I0)]
        if name in ('g_signal_emit', 'g_signal_emit_by_name'):
            n = siglib.emitted(self.p, fr.fn.file, node) if name == 'g_signal_emit' else args[1][1]
            k = 3 if name == 'g_signal_emit' else 2
            self.ev(st, 'emit', n, tuple(args[k:k + 2]))
            if n == 'flow' and self.file == RD:      # a handler may request a shutdown
                s2 = st.copy(); self.ev(s2, 'shutdown')
                s2.env[('f', self.base, 'shutdown_requested')] = I1
                return [(st, I0), (s2, I0)]
            return [(st, I0)]
        if name == 'g_io_channel_write_chars':
            out = []
            for e, s in self.set_err(eng, st, fr, args[4], node, (0, 1)):
                w = I0
                if args[3][0] == '&': w = eng.havoc(s, fr, args[3][1], ('written', node['l']), 'written')
                eng.constrain(s, w, lo=0)
                self.ev(s, 'write', tuple(args[0:3]), w, e)
                out.append((s, eng.fresh(s, fr, ('ws', node['l']), 'ws')))
            return out
        if name == 'g_io_channel_read_chars':
            out = []
            for e, s in self.set_err(eng, st, fr, args[4], node, (0, 1)):
                for status in (('G_IO_STATUS_ERROR',) if e else ('G_IO_STATUS_NORMAL', 'G_IO_STATUS_EOF', 'G_IO_STATUS_AGAIN')):
                    t = s.copy()
                    prev = [x for x in t.mon if x[0] == 'read']
                    if prev and eng.truth(t, prev[-1][2]) is not False and [x for x in t.mon if x[0] == 'emit' and x[1] == 'flow'] != [('emit', 'flow', (prev[-1][1][0], prev[-1][2]))]: self.ev(t, 'lost')
                    w = eng.havoc(t, fr, args[3][1], ('length', node['l']), 'length')
                    eng.constrain(t, w, lo=0)
                    if any(x[0] == 'read' and (x[3] in ('G_IO_STATUS_ERROR', 'G_IO_STATUS_EOF')) for x in t.mon): self.ev(t, 'read-again')
                    t.mon = tuple(x for x in t.mon if not (x[0] in ('read',) or x[0] == 'emit' and x[1] == 'flow')) + (('read', tuple(args[1:3]), w, status),)
                    out.append((t, I(self.p.enum(status))))
            return out
        if name == 'g_io_channel_flush':
            out = []
            for e, s in self.set_err(eng, st, fr, args[1], node, (0, 1)):
                for status in (('G_IO_STATUS_ERROR',) if e else ('G_IO_STATUS_NORMAL', 'G_IO_STATUS_AGAIN')):
                    t = s.copy(); self.ev(t, 'flush', status); out.append((t, I(self.p.enum(status))))
            return out
        if args and name.startswith('g_string_') and args[0][0] == 'ld':
            self.ev(st, name.replace('_inline', ''), tuple(args[1:3]))
            ll = ('f', ('d', args[0]), 'len')
            eng.havoc(st, fr, ll, ('len', node['l']), 'len')
            return [(st, args[0])]
        return None
    def on_store(self, eng, st, fr, loc, val, node):
        if loc[0] == 'f' and val[0] == 'sym' and val[1] == 'watch': self.idfield[val[2]] = loc[2]
        if loc[0] == 'f' and val[0] == 'ld' and val[1][0] == 'f' and val[1][2] == 'len': self.stored_len.add(loc[2])

def evs(st, k): return [e for e in st.mon if e[0] == k]

def run(ctx):
    ctx.explanation = ("Each entry point and each callback of the reader, the writer and the agent's forwarding handlers is abstractly interpreted for every outcome of the "
        "channel operations (data, nothing, end of file, error; partly or wholly written); the effects on the pending bytes, the watches and the signals are compared with the specification.")
    writer(ctx); reader(ctx); agent(ctx)
    ctx.assume("registering a watch on the event loop succeeds; GIOChannel reports errors through its GError argument")

def start(rule, fn, tname, fields=None, obj=None):
    def setup(eng, st):
        k = len(fn.params) - 1 if obj is None else obj
        o = ('sym', 'param', fn.params[k]['n'], k)
        base = ('d', ('priv', o, tname))
        for f, v in (fields or {}).items(): st.env[('f', base, f)] = v
        rule.base = base
        for f in ('len',): pass
        st.facts[('ld', ('f', ('d', ('ld', ('f', base, 'buffer'))), 'len'))] = (0, INF, frozenset())
        st.facts[('ld', ('f', base, 'flush_point'))] = (0, INF, frozenset())
    return setup

def writer(ctx):
    p = ctx.prog
    T = 'milterwriter'
    ws = watchers(p, WR)
    fnof = lambda n: p.need(n, WR)
    wfn = [n for n in ws if calls(p, fnof(n), WR, 'g_io_channel_write_chars')]
    ffn = [n for n in ws if n not in wfn and calls(p, fnof(n), WR, 'g_io_channel_flush')]
    efn = [n for n in ws if n not in wfn and n not in ffn]
    if not (len(wfn) == len(ffn) == len(efn) == 1): raise AnalysisBroken("the watch functions of the writer are not recognised: %s" % ws)
    wfn, ffn, efn = wfn[0], ffn[0], efn[0]
    def go(name, fields=None, obj=None):
        fn = fnof(name)
        r = IO(p, WR, T); r.idfield = go.ids; r.stored_len = go.sl
        eng = Engine(p, r)
        res = eng.run(fn, None, start(r, fn, T, fields, obj)); ctx.used(eng)
        ctx.count("exit states checked", len(res))
        def bad(key, msg, st): ctx.violation("writer:%s:%s" % (name, key), fn.file, fn.line, msg + " (path %s)" % trace_str(st.trace))
        return fn, r, eng, res, bad
    go.ids, go.sl = {}, set()
    P = lambda fn, k: ('sym', 'param', fn.params[k]['n'], k)
    field = lambda eng, r, st, f: eng.read(st, ('f', r.base, f))
    # 1. write
    fn, r, eng, res, bad = go('milter_writer_write', obj=0)
    if wfn not in go.ids: raise AnalysisBroken("the write watch is not registered by milter_writer_write")
    wid = go.ids[wfn]
    go('milter_writer_flush', obj=0); go('milter_writer_start', obj=0)
    fid, eid = go.ids[ffn], go.ids[efn]
    ok = 0
    for st, v in res:
        app = evs(st, 'g_string_append_len')
        for truth in (True, False):
            s = st.copy()
            if not eng.assume(s, v, truth): continue
            if truth:
                if eng.truth(s, P(fn, 2)) is False: continue
                ok += 1
                if len(app) != 1 or app[0][1] != (P(fn, 1), P(fn, 2)): bad("append", "the chunk isn't queued exactly once", s)
                if eng.truth(s, field(eng, r, s, wid)) is not True: bad("watch", "nobody is going to write the queued chunk", s)
            else:
                if app: bad("append-failed", "a chunk is queued although the write is reported to have failed", s)
                if not evs(s, 'set-error'): bad("error", "a failed write request sets no error", s)
    if not ok: raise AnalysisBroken("milter_writer_write never succeeds")
    # 2. flush request
    fn, r, eng, res, bad = go('milter_writer_flush', obj=0)
    fps = go.sl
    if len(fps) != 1: raise AnalysisBroken("flush point field not recognised: %s" % fps)
    fp = list(fps)[0]
    for st, v in res:
        for truth in (True, False):
            s = st.copy()
            if not eng.assume(s, v, truth): continue
            if truth:
                pend = eng.read(s, ('f', ('d', field(eng, r, s, 'buffer')), 'len'))
                a = s.env.get(('f', r.base, fp))
                deferred = a is not None and a == pend and eng.truth(s, pend) is True and eng.truth(s, field(eng, r, s, wid)) is True
                now = eng.truth(s, field(eng, r, s, fid)) is True
                if now and not deferred and eng.truth(s, pend) is not False and eng.truth(s, field(eng, r, s, wid)) is not False: bad("early", "the channel is flushed without waiting for the bytes queued before the flush request", s)
                if not now and not deferred: bad("lost", "a flush request is neither deferred to the pending bytes nor served", s)
            elif not evs(s, 'set-error'): bad("error", "a failed flush request sets no error", s)
    # 3. write watch
    fn, r, eng, res, bad = go(wfn)
    nw = 0
    for st, v in res:
        w = evs(st, 'write')
        er = evs(st, 'g_string_erase')
        buf = ('ld', ('f', r.base, 'buffer'))
        len0 = ('ld', ('f', ('d', buf), 'len'))
        t = eng.truth(st, v)
        idv = st.env.get(('f', r.base, wid))
        if t is None: bad("result", "it isn't decided whether the write watch is kept", st); continue
        if not t and idv != I0: bad("id", "the write watch is removed but still recorded as registered", st)
        if t and idv is not None and idv != ('ld', ('f', r.base, wid)): bad("id-lost", "the write watch stays registered but isn't recorded", st)
        if not w:
            if eng.truth(st, len0) is not False: bad("skip", "pending bytes are not written", st)
            if t: bad("spin", "the write watch is kept although nothing is pending", st)
            if er or evs(st, 'error'): bad("skip-effect", "bytes are dropped or an error is reported though nothing was written", st)
            continue
        nw += 1
        if len(w) != 1: bad("twice", "pending bytes are written twice", st); continue
        ch, s_, n_ = w[0][1]
        if ch not in (('ld', ('f', r.base, 'io_channel')), P(fn, 0)) or s_ != ('ld', ('f', ('d', buf), 'str')) or n_ != len0: bad("range", "what is written isn't the pending bytes", st)
        wr, e = w[0][2], w[0][3]
        tw = eng.truth(st, wr)
        if er and (len(er) != 1 or er[0][1] != (I0, wr)): bad("erase", "the bytes dropped are not those that were written", st)
        if not er and tw is not False: bad("erase-missing", "written bytes stay pending and are written again", st)
        if any(x[0].startswith('g_string_') and x[0] != 'g_string_erase' for x in st.mon): bad("buffer", "the pending bytes are changed", st)
        if len(evs(st, 'error')) != e: bad("error", "a write %s is followed by %d error notifications" % ("error" if e else "success", len(evs(st, 'error'))), st)
        if e and t: bad("keep", "the write watch is kept after an error", st)
        if not e and not t:
            ln = eng.read(st, ('f', ('d', buf), 'len'))
            if eng.truth(st, ln) is not False: bad("drop", "the write watch is removed although bytes may be pending", st)
        fp0 = ('ld', ('f', r.base, fp))
        req = eng.truth(st, eng.read(st, ('f', r.base, fid))) is True and (evs(st, 'watch') or eng.truth(st, ('ld', ('f', r.base, fid))) is True and evs(st, 'watch') == [] and eng.truth(st, fp0) is True)
        watched = any(x[1] == ffn for x in evs(st, 'watch'))
        below = eng.truth(st, eng.mkop(st, '<', wr, fp0))
        nf = eng.read(st, ('f', r.base, fp))
        if eng.truth(st, fp0) is False:
            if watched: bad("flush-unasked", "a flush is started that nobody asked for", st)
        elif tw is not False:
            hasloop = eng.truth(st, ('ld', ('f', r.base, 'loop')))
            if below is True:
                if watched: bad("flush-early", "the channel is flushed before all bytes queued before the flush request are written", st)
                if nf not in (eng.mkop(st, '-', fp0, wr),): bad("flush-point", "the flush point isn't moved by the number of bytes written", st)
            elif below is False:
                if nf != I0: bad("flush-point-reset", "the flush point isn't reset once it is reached", st)
                if hasloop is not False and not watched and eng.truth(st, ('ld', ('f', r.base, fid))) is not True: bad("flush-lost", "the flush point is reached but the channel isn't flushed", st)
            else: bad("flush-undecided", "whether the flush point is reached isn't tested", st)
    if not nw: raise AnalysisBroken("the write watch writes nothing")
    # 4. flush watch
    fn, r, eng, res, bad = go(ffn)
    for st, v in res:
        f = evs(st, 'flush')
        t = eng.truth(st, v)
        fl = [e for e in evs(st, 'emit') if e[1] == 'flushed']
        if len(f) != 1 or t is None: bad("flush", "the channel isn't flushed exactly once", st); continue
        s_ = f[0][1]
        want = {'G_IO_STATUS_ERROR': (0, 1, False), 'G_IO_STATUS_AGAIN': (0, 0, True), 'G_IO_STATUS_NORMAL': (1, 0, False)}[s_]
        got = (len(fl), len(evs(st, 'error')), t)
        if got != want: bad(s_, "flushing ends with %s: (flushed, error, kept) is %s, not %s" % (s_, got, want), st)
        if not t and st.env.get(('f', r.base, fid)) != I0: bad("id", "the flush watch is removed but still recorded as registered", st)
    # 5. shutdown
    fn, r, eng, res, bad = go('milter_writer_shutdown', obj=0)
    for st, v in res:
        buf = ('ld', ('f', r.base, 'buffer'))
        len0 = ('ld', ('f', ('d', buf), 'len'))
        started = eng.truth(st, ('ld', ('f', r.base, eid)))
        ch = eng.truth(st, ('ld', ('f', r.base, 'io_channel')))
        w = evs(st, 'write')
        if started is not False:
            for i in (wid, fid, eid):
                if eng.truth(st, field(eng, r, st, i)) is not False: bad("watch:" + i, "a watch stays registered after shutdown", st)
                o = ('ld', ('f', r.base, i))
                if eng.truth(st, o) is not False and not any(x[1] == o for x in st.mon if x[0] == 'remove') and not len(evs(st, 'remove')) >= 2: bad("remove:" + i, "a watch isn't removed from the event loop on shutdown", st)
            if ch is not False and eng.truth(st, len0) is not False and eng.truth(st, ('ld', ('f', r.base, 'writing'))) is not True:
                if len(w) != 1: bad("pending", "pending bytes are dropped on shutdown", st); continue
                if w[0][1] != (('ld', ('f', r.base, 'io_channel')), ('ld', ('f', ('d', buf), 'str')), len0): bad("range", "what is written on shutdown isn't the pending bytes", st)
                if w[0][3] == 0 and not evs(st, 'flush'): bad("flush", "bytes written on shutdown are not flushed", st)
                n = w[0][3] + sum(1 for e in evs(st, 'flush') if e[1] == 'G_IO_STATUS_ERROR')
                if len(evs(st, 'error')) != n: bad("error", "%d errors on shutdown but %d error notifications" % (n, len(evs(st, 'error'))), st)
        if ch is not False and started is not False and field(eng, r, st, 'io_channel') != I0: bad("channel", "the channel is kept after shutdown", st)
    # 6. error watch
    fn, r, eng, res, bad = go(efn)
    for st, v in res:
        if len(evs(st, 'error')) != 1: bad("error", "a channel error is reported %d times" % len(evs(st, 'error')), st)
        if len(evs(st, 'finished')) != 1: bad("finished", "after a channel error the writer finishes %d times" % len(evs(st, 'finished')), st)
        if eng.truth(st, v) is not False: bad("keep", "the error watch is kept after an error", st)
        for i in (wid, fid, eid):
            if eng.truth(st, field(eng, r, st, i)) is not False: bad("id:" + i, "a watch is still recorded after a channel error", st)
    ctx.count("callbacks checked", 6)

def reader(ctx):
    p = ctx.prog
    T = 'milterreader'
    ws = watchers(p, RD)
    rfn = [n for n in ws if calls(p, p.need(n, RD), RD, 'g_io_channel_read_chars')]
    efn = [n for n in ws if n not in rfn]
    if not (len(rfn) == len(efn) == 1): raise AnalysisBroken("the watch functions of the reader are not recognised: %s" % ws)
    rfn, efn = rfn[0], efn[0]
    ids = {}
    def go(name, fields=None, obj=None, args=None):
        fn = p.need(name, RD)
        r = IO(p, RD, T); r.idfield = ids
        eng = Engine(p, r)
        res = eng.run(fn, args, start(r, fn, T, fields, obj)); ctx.used(eng)
        ctx.count("exit states checked", len(res))
        def bad(key, msg, st): ctx.violation("reader:%s:%s" % (name, key), fn.file, fn.line, msg + " (path %s)" % trace_str(st.trace))
        return fn, r, eng, res, bad
    go('milter_reader_start', obj=0)
    if rfn not in ids or efn not in ids: raise AnalysisBroken("milter_reader_start registers no watches")
    rid, eid = ids[rfn], ids[efn]
    fn, r, eng, res, bad = go(rfn, {'shutdown_requested': I0})
    n = 0
    for st, v in res:
        t = eng.truth(st, v)
        rd = evs(st, 'read')
        if evs(st, 'lost'): bad("flow-earlier", "received bytes are overwritten by the next read before they are handed over", st)
        if evs(st, 'read-again'): bad("again", "the channel is read again after an error or end of stream", st)
        if not rd: bad("read", "nothing is read when data is available", st); continue
        if t is None: bad("result", "it isn't decided whether the read watch is kept", st); continue
        n += 1
        (b, size), ln, status = rd[-1][1:]
        fl = [e for e in evs(st, 'emit') if e[1] == 'flow']
        tl = eng.truth(st, ln)
        if tl is not False and (len(fl) != 1 or fl[0][2] != (b, ln)): bad("flow", "received bytes are not handed over exactly once", st)
        if tl is False and fl: bad("flow-empty", "bytes are handed over though none were received", st)
        if size[0] != 'i' or b[0] == '&' and b[1][0] == 'v' and (array_size(fn, p, b[1]) or 0) < size[1]: bad("size", "the read size %s exceeds the buffer" % (size,), st)
        er = len(evs(st, 'error'))
        if er != (1 if status == 'G_IO_STATUS_ERROR' else 0): bad("error", "a read ending with %s causes %d error notifications" % (status, er), st)
        end = status in ('G_IO_STATUS_ERROR', 'G_IO_STATUS_EOF')
        if end and t: bad("keep", "reading goes on after %s" % status, st)
        fin = len(evs(st, 'finished'))
        if t and fin or not t and fin != 1: bad("finished", "the read watch is %s but the reader finishes %d times" % ("kept" if t else "removed", fin), st)
        if not t:
            for i in (rid, eid):
                if eng.truth(st, eng.read(st, ('f', r.base, i))) is not False: bad("id:" + i, "a watch is still recorded after the reader finished", st)
            if eng.truth(st, ('ld', ('f', r.base, eid))) is not False and not any(x[1] == ('ld', ('f', r.base, eid)) for x in evs(st, 'remove')): bad("remove", "the error watch isn't removed when the reader finishes", st)
        sd = bool(evs(st, 'shutdown'))
        if sd and t: bad("shutdown-ignored", "a shutdown requested while data is handed over isn't completed", st)
        if not end and not t and not sd: bad("stop", "reading stops without error, end of stream or shutdown", st)
        if eng.truth(st, eng.read(st, ('f', r.base, 'processing'))) is not False: bad("processing", "the reader stays marked as processing", st)
    if not n: raise AnalysisBroken("the read watch reads nothing")
    fn, r, eng, res, bad = go(rfn, {'shutdown_requested': I1})
    for st, v in res:
        if evs(st, 'read'): bad("shutdown-read", "the channel is read after a shutdown request", st)
        if eng.truth(st, v) is not False or len(evs(st, 'finished')) != 1: bad("shutdown", "a requested shutdown isn't completed", st)
    HUP, ERR, NVAL = p.enum('G_IO_HUP'), p.enum('G_IO_ERR'), p.enum('G_IO_NVAL')
    for cond, err in ((HUP, 0), (ERR, 1), (NVAL, 1), (HUP | ERR, 1)):
        f0 = p.need(efn, RD)
        fn, r, eng, res, bad = go(efn, {'shutdown_requested': I0}, args={f0.params[1]['n']: I(cond)})
        for st, v in res:
            if len(evs(st, 'error')) != err: bad("error:%d" % cond, "channel condition %d causes %d error notifications" % (cond, len(evs(st, 'error'))), st)
            if len(evs(st, 'finished')) != 1: bad("finished:%d" % cond, "after channel condition %d the reader finishes %d times" % (cond, len(evs(st, 'finished'))), st)
            if eng.truth(st, v) is not False: bad("keep:%d" % cond, "the error watch is kept", st)
            for i in (rid, eid):
                if eng.truth(st, eng.read(st, ('f', r.base, i))) is not False: bad("id:" + i, "a watch is still recorded after the reader finished", st)
            if eng.truth(st, ('ld', ('f', r.base, rid))) is not False and not any(x[1] == ('ld', ('f', r.base, rid)) for x in evs(st, 'remove')): bad("remove", "the read watch isn't removed when the reader finishes", st)
    for proc in (0, 1):
        fn, r, eng, res, bad = go('milter_reader_shutdown', {'processing': I(proc), 'shutdown_requested': I0, }, obj=0)
        for st, v in res:
            w = eng.truth(st, ('ld', ('f', r.base, rid)))
            if w is False: continue
            fin = len(evs(st, 'finished'))
            if proc:
                if fin: bad("inner", "a shutdown requested while data is handed over finishes the reader at once", st)
                if eng.read(st, ('f', r.base, 'shutdown_requested')) != I1: bad("flag", "a shutdown requested while data is handed over is forgotten", st)
            else:
                if fin != 1: bad("finish", "shutdown finishes the reader %d times" % fin, st)
                for i in (rid, eid):
                    if eng.truth(st, eng.read(st, ('f', r.base, i))) is not False: bad("id:" + i, "a watch is still recorded after shutdown", st)
    ctx.count("callbacks checked", 4)

def array_size(fn, p, loc):
    f = fn
    for g in p.fns.values():
        if g.file == RD and g.name == loc[1]:
            t = g.vartypes.get(loc[2], '')
            m = re.search(r'\[(\d+)\]', t)
            return int(m.group(1)) if m else None

def agent(ctx):
    p = ctx.prog
    class A(Rule):
        def inline(self, eng, f): return f.file == AG
        def on_call(self, eng, st, fr, name, args, node):
            if name == 'milter_logger_get_interesting_level': return [(st, I0)]
            if name == 'milter_error_emittable_emit': st.mon += ('error',)
            if name == 'milter_finished_emittable_emit': st.mon += ('finished',)
            if name == 'g_signal_emit': st.mon += (siglib.emitted(p, AG, node),)
            return None
    want = {'error': ('error',), 'flushed': ('flushed',)}
    cs = childrenlib.connections(p, AG)
    for sig, w in want.items():
        hs = cs.get(sig, [])
        if len(hs) < (2 if sig == 'error' else 1): raise AnalysisBroken("agent: handlers of '%s' not found" % sig)
        for name, f, l in hs:
            fn = p.need(name, AG)
            eng = Engine(p, A())
            for st, v in eng.run(fn):
                ctx.count("forwarding paths")
                if st.mon != w: ctx.violation("agent:%s:%s" % (sig, name), AG, fn.line, "a '%s' notification of a reader or writer is forwarded as %s (path %s)" % (sig, list(st.mon), trace_str(st.trace)))
            ctx.used(eng)
    hs = [h for h in cs.get('finished', []) if calls(p, p.need(h[0], AG), AG, 'milter_finished_emittable_emit')]
    if len(hs) != 1: raise AnalysisBroken("agent: the handler of the end of the reader isn't recognised")
    fn = p.need(hs[0][0], AG)
    for fin in (0, 1):
        eng = Engine(p, A())
        def setup(eng, st):
            for o in [('sym', 'param', x['n'], k) for k, x in enumerate(fn.params)]:
                st.env[('f', ('d', ('priv', o, 'milteragent')), 'finished')] = I(fin)
        for st, v in eng.run(fn, None, setup):
            ctx.count("forwarding paths")
            if st.mon.count('finished') != 1 - fin: ctx.violation("agent:finished", AG, fn.line, "the end of the stream is forwarded %d times by an agent that %s finished" % (st.mon.count('finished'), "has" if fin else "hasn't"))
    w = p.need('milter_agent_write_packet')
    class W(A):
        def inline(self, eng, f): return f.file == AG
        def on_call(self, eng, st, fr, name, args, node):
            if name == 'milter_writer_write':
                s2 = st.copy(); st.mon += (('write', 1) + tuple(args[1:3]),); s2.mon += (('write', 0) + tuple(args[1:3]),)
                return [(st, I1), (s2, I0)]
            if name in ('milter_writer_flush', '*flush', 'milter_agent_flush'):
                st.mon += (('flush',),)
                s2 = st.copy()
                return [(st, I1), (s2, I0)]
            return None
    eng = Engine(p, W())
    names = [x['n'] for x in w.params]
    for st, v in eng.run(w):
        ctx.count("forwarding paths")
        ww = [e for e in st.mon if e[0] == 'write']; ff = [e for e in st.mon if e[0] == 'flush']
        if not ww: continue
        if len(ww) != 1 or ww[0][2:] != tuple(('sym', 'param', names[k], k) for k in (1, 2)): ctx.violation("agent:write", AG, w.line, "a packet isn't written exactly once")
        if len(ff) != ww[0][1]: ctx.violation("agent:write-flush", AG, w.line, "writing a packet isn't followed by exactly one flush request")
        if not ww[0][1] and eng.truth(st, v) is not False: ctx.violation("agent:write-failed", AG, w.line, "a failed write is reported as success")
    ctx.used(eng)
    ctx.floor("forwarding paths", 6)
