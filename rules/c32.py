"""C32: a stream which announced its end isn't touched any more, unless it is kept alive."""
from ctxlib import *

RD, WR = "milter/core/milter-reader.c", "milter/core/milter-writer.c"

def touches(v, o):
    """is memory of o behind this location or value?"""
    if not isinstance(v, tuple): return False
    if v[:1] == ('ld',): return False
    return v == o or any(touches(x, o) for x in v)

class End(CtxRule):
    limit = 2
    def inline(self, eng, f): return f.file == self.file and not f.name.endswith(('_get_type', '_get_type_once', '_class_init', 'dispose'))
    def gone(self, st):
        """objects announced as finished while nobody here kept them"""
        r = []
        for o in {e[1] for e in st.mon if e[0] == 'end'}:
            kept, ended, dead = 0, False, False
            for e in st.mon:
                if e[1] != o: continue
                if e[0] == 'ref': kept += 1
                elif e[0] == 'unref': kept -= 1
                elif e[0] == 'end': ended = True
                dead = dead or ended and kept <= 0
            if dead: r.append(o)
        return r
    def look(self, st, loc, what, node):
        if not any(e[0] == 'end' for e in st.mon): return
        for o in self.gone(st):
            if touches(loc, o): self.ev(st, 'touched', o, what, node.get('l', 0))
    def on_load(self, eng, st, fr, loc, node):
        if loc[0] != 'v': self.look(st, loc, 'reads ' + str(loc[2] if len(loc) > 2 else ''), node)
    def on_store(self, eng, st, fr, loc, val, node):
        if loc[0] != 'v': self.look(st, loc, 'sets ' + str(loc[2] if len(loc) > 2 else ''), node)
    def on_call(self, eng, st, fr, name, args, node):
        a = tuple(eng.canon(st, x) for x in args)
        if name == 'milter_logger_get_interesting_level': return [(st, I(0xffff))]
        if name in ('g_object_ref', 'g_object_unref'): self.look(st, a[0], 'passes itself to ' + name, node)
        if name == 'g_object_ref': self.ev2(st, 'ref', a[0]); return [(st, a[0])]
        if name == 'g_object_unref': self.ev2(st, 'unref', a[0]); return [(st, I0)]
        fn = next((f for f in self.p.byname[name] if f.file == self.file), None)
        if not (fn and self.inline(eng, fn)) and not name.endswith(('_get_type', '_get_type_once')) and 'instance_get_private' not in name:
            for x in a: self.look(st, x, 'passes itself to ' + name, node)
        if name == 'milter_finished_emittable_emit': self.ev2(st, 'end', a[0]); return [(st, I0)]
        return None
    def ev2(self, st, *e):
        if sum(1 for x in st.mon if x == e) < 4: st.mon = st.mon + (e,)

def run(ctx):
    p = ctx.prog
    ctx.explanation = ("Every function of the reader and the writer is interpreted abstractly, with the functions of its file inlined and logging switched on; after a path announced that the object has finished, while it holds no reference on it, "
        "nothing on this path may read, set or pass on anything of the object: the handler of the agent releases it there (checked in the agent).")
    seen = set()
    def V(f, key, msg, st=None):
        if (f.key(), key) in seen: return
        seen.add((f.key(), key))
        ctx.violation("%s:%s" % (f.name, key), f.file, f.line, "%s: %s%s" % (f.name, msg, " (path %s)" % trace_str(st.trace) if st else ""))
    for file in (RD, WR):
        n = 0
        for f in [g for g in p.fns.values() if g.file == file and g.name not in ('dispose',) and not g.name.endswith(('_get_type', '_get_type_once', '_class_init', '_quark'))]:
            r = End(p, file)
            eng = Engine(p, r, budget=300000)
            q = [('sym', 'param', x['n'], k) for k, x in enumerate(f.params)]
            out = eng.run(f, None, lambda e, s: [e.constrain(s, x, ne=0) for x, d in zip(q, f.params) if '*' in d['t'] and 'GError' not in d['t']])
            ctx.used(eng); ctx.count("functions interpreted"); ctx.count("paths", len(out))
            for st, v in out:
                if not events(st, 'end'): continue
                n += 1; ctx.count("paths which announce the end")
                if len(events(st, 'end')) > 1: V(f, 'twice', "the end is announced twice", st)
                for e in events(st, 'touched')[:1]: V(f, 'touched', "%s after it announced its end, when it may have been released (line %d)" % (e[2], e[3]), st)
        if not n: raise AnalysisBroken("nothing in %s announces its end" % file)
    ctx.floor("paths which announce the end", 6)
