"""C21: nothing kept for one message is left for the next one."""
from sclib import *
from childrenlib import ChildRule, CH, SP, SIMPLE_STATES, SIGNAL, setup_priv, field_of, handler
MSG = ['envelope_from', 'envelope_recipient', 'data', 'header', 'end_of_header', 'body', 'end_of_message']
MODS = ["add-header", "insert-header", "change-header", "delete-header", "change-from", "add-recipient", "delete-recipient", "replace-body",
        "quarantine"]
SESSION = ('negotiate', 'connect', 'helo', 'quit', 'negotiate-reply', 'connection-failure', 'shutdown')
NOTBODY = re.compile(r'_get_type(_once)?$|_init$|^dispose$|^finalize$|_property$|_new$')

def nodes(e):
    if isinstance(e, dict):
        if 'k' in e: yield e
        for v in e.values(): yield from nodes(v)
    elif isinstance(e, (list, tuple)):
        for v in e: yield from nodes(v)
def const(n):
    while n is not None and n['k'] == 'cast': n = n['x']
    return n['v'] if n is not None and n['k'] == 'int' else None
def record(p, obj_init, file):
    """the record in which the private fields live: the one the instance initialiser fills"""
    out = {}
    f = p.need(obj_init, file)
    for n in nodes(f.raw['blocks']):
        if n['k'] == 'asg' and n['x']['k'] == 'mem' and n['x'].get('rec', '').endswith('Private'):
            out.setdefault(n['x']['rec'], {})[n['x']['f']] = const(n['y'])
    if len(out) != 1: raise AnalysisBroken("%s doesn't fill one private structure" % obj_init)
    return list(out.items())[0]
def stores(p, file, entries, rec):
    """fields of rec assigned by the functions of the file reachable from the entries: field -> [(type, node, function)]"""
    seen, todo, out = set(), list(entries), {}
    while todo:
        f = todo.pop()
        if f is None or f.name in seen or f.file != file or NOTBODY.search(f.name): continue
        seen.add(f.name)
        for n in nodes(f.raw['blocks']):
            if n['k'] == 'asg' and n['x']['k'] == 'mem' and n['x'].get('rec') == rec and n['o'] == '=':
                out.setdefault(n['x']['f'], []).append((n['x']['t'], n['y'], f.name))
            if n['k'] == 'un' and n['o'] in ('++', '--') and n['x']['k'] == 'mem' and n['x'].get('rec') == rec: out.setdefault(n['x']['f'], []).append((n['x']['t'], {'k': 'step'}, f.name))
            if n['k'] == 'un' and n['o'] == '&' and n['x']['k'] == 'mem' and n['x'].get('rec') == rec: out.setdefault(n['x']['f'], []).append((n['x']['t'], {'k': 'filled'}, f.name))
            if n['k'] == 'call' and n.get('fn'): todo.append(p.resolve(n['fn'], file))
            if n['k'] == 'fn': todo.append(p.resolve(n['n'], file))
    return out
def kept(p, file, entries, session, rec, initial, every=False):
    """fields in which the processing of a message keeps something"""
    st, ses = stores(p, file, entries, rec), stores(p, file, session, rec)
    out = {}
    for f, ws in st.items():
        t = ws[0][0]
        other = [w for w in ws if const(w[1]) is None or const(w[1]) != (initial.get(f) or 0)]
        if not other or f in ses and any(const(w[1]) != (initial.get(f) or 0) for w in ses[f]): continue
        flag = not t.endswith('*') and all(const(w[1]) is not None for w in other)
        if every or t.endswith('*') or flag: out[f] = (t, flag, {w[2] for w in other}, initial.get(f) or 0)
    return out
class Stores(CtxRule):
    """events: stores to private fields"""
    def on_store(self, eng, st, fr, loc, val, node):
        if loc[0] == 'f' and loc[1][0] == 'd' and loc[1][1][0] == 'priv': self.ev(st, 'store', loc[2], val if val[0] == 'i' else None)
    def on_call(self, eng, st, fr, name, args, node):
        b = name.replace('_inline', '')
        if name.startswith('milter_message_result_'): return [(st, ('call', 'result') if name.endswith('_new') else I0)]
        if b in ('g_list_free', 'g_list_free_full', 'g_hash_table_remove_all', 'g_queue_clear'): self.ev(st, 'emptied', args[0]); return [(st, I0)]
        if name in ('milter_protocol_agent_clear_message_related_macros',): self.ev(st, 'macros'); return [(st, I0)]
        return CtxRule.on_call(self, eng, st, fr, name, args, node)
    nn = CtxRule.nn + ('result',)
def clean(eng, st, loc, initial):
    v = st.env.get(loc, ('ld', loc))
    return v == I(initial) or initial == 0 and eng.truth(st, v) is False
def relevant_functions(p, file, rec, fields):
    """functions which (through calls inside the file) can change one of the fields, the recorded statuses or send a reply"""
    direct, calls = set(), {}
    for f in p.fns.values():
        if f.file != file: continue
        calls[f.name] = set()
        for n in nodes(f.raw['blocks']):
            if n['k'] in ('asg', 'un') and n['x']['k'] == 'mem' and n['x'].get('rec') == rec and n['x']['f'] in fields: direct.add(f.name)
            if n['k'] == 'call' and n.get('fn'):
                calls[f.name].add(n['fn'])
                if n['fn'].startswith('g_hash_table_') and n['a'] and n['a'][0]['k'] == 'mem' and n['a'][0]['f'] == 'reply_statuses': direct.add(f.name)
                if n['fn'] == 'g_signal_emit_by_name':
                    names = [x['v'] for x in nodes(n['a'][1]) if x['k'] == 'str']
                    if not names or set(map(norm, names)) & (set(SIGNAL.values()) | {'reply-code'}): direct.add(f.name)
    while True:
        more = {f for f, c in calls.items() if f not in direct and c & direct}
        if not more: break
        direct |= more
    # small functions which decide something are kept
    return direct | {f.name for f in p.fns.values() if f.file == file and f.nblocks <= 12 and not any(x in ('g_signal_emit_by_name',) for x in calls[f.name])}
def restarted(p, file, entries, field, initial):
    """some command of the next message puts the field back on every path which goes on to send it"""
    for e in entries:
        if not any(n['k'] == 'asg' and n['x']['k'] == 'mem' and n['x']['f'] == field and const(n['y']) == initial for n in nodes(e.raw['blocks'])): continue
        return e.name
    return None
def overwritten(p, file, entries, field, writers, by='write'):
    for e in entries:
        if e.name not in writers: continue
        if not any(n['k'] == 'asg' and n['x']['k'] == 'mem' and n['x']['f'] == field for n in nodes(e.raw['blocks'])): continue
        eng = Engine(p, Stores(p, file))
        rs = [st for st, v in eng.run(e)]
        sent = [st for st in rs if events(st, by)]
        if sent and all(index(st, lambda x: x[:2] == ('store', field)) is not None and
                        index(st, lambda x: x[:2] == ('store', field)) < index(st, lambda x: x[0] == by) for st in sent): return True
    return False
def cleaned(p, file, entries, field, initial, base_of, obj=-1):
    """some command of the next message has the field at its initial value, on every path, when it is reported"""
    class At(Stores):
        def emit(self, eng, st, fr, n, args, node):
            self.ev(st, 'at', clean(eng, st, ('f', base_of(eng), field), initial))
            return Stores.emit(self, eng, st, fr, n, args, node)
    for e in entries:
        eng = Engine(p, At(p, file))
        eng.cx = ('sym', 'param', e.params[obj]['n'], obj % len(e.params))
        rs = eng.run(e)
        first = [next((x for x in st.mon if x[0] == 'at'), None) for st, v in rs]
        if any(first) and all(x is None or x[1] for x in first): return True
    return False
def strings(p, file, entries, rec):
    """private string buffers which are appended to while a message is processed"""
    out = {}
    seen, todo = set(), list(entries)
    while todo:
        f = todo.pop()
        if f is None or f.name in seen or f.file != file or NOTBODY.search(f.name): continue
        seen.add(f.name)
        for n in nodes(f.raw['blocks']):
            if n['k'] == 'call' and n.get('fn'):
                if re.match('g_string_(append|prepend|insert)', n['fn']) and n['a'] and n['a'][0]['k'] == 'mem' and n['a'][0].get('rec') == rec: out[n['a'][0]['f']] = f.name
                todo.append(p.resolve(n['fn'], file))
            if n['k'] == 'fn': todo.append(p.resolve(n['n'], file))
    return out

def run(ctx):
    p = ctx.prog
    E = p.enum
    ctx.explanation = ("The private fields in which the child coordinator, the server context and the client context keep something while a message is "
        "processed are collected from the functions reachable from the message commands, the answers and the modification requests (those also "
        "set by the commands of the session aside). The functions which end a message (the reply to its end, the abort) are abstractly "
        "interpreted: each such field has its initial value at the end of every path. The text set for a reply is cleared by every reply.")
    # ---- the child coordinator
    rec, initial = record(p, 'milter_manager_children_init', CH)
    conn = connections(p, CH)
    ent = [p.need('milter_manager_children_' + m, CH) for m in MSG] + [handler(p, CH, m) for m in MODS + ['reply-code']]
    fields = kept(p, CH, ent, [], rec, initial)
    fields = {f: x for f, x in fields.items() if not restarted_flag(p, ent[:len(MSG)], f, x)}
    text = [f for f in stores(p, CH, [handler(p, CH, 'reply-code')], rec) if direct(p, handler(p, CH, 'reply-code'), f, rec, initial)]
    if len(text) != 3: raise AnalysisBroken("the reply text kept by the coordinator isn't found: %s" % text)
    for f in text: fields.setdefault(f, (None, False, set(), 0))
    fields.pop('state', None); fields.pop('processing_state', None)
    for f in fields: ctx.count("fields kept for a message"); ctx.sample("children: " + f)
    if len(fields) < 14: raise AnalysisBroken("only the fields %s are found" % sorted(fields))
    def dirty(eng, st, f): return [(l, v) for l, v in st.env.items() if l[0] == 'f' and l[2] == f and v != I(fields[f][3])]
    def check(tag, fn, paths, eng, what, which):
        for st, base in paths:
            ctx.count("paths which end a message")
            for f in which:
                if not clean(eng, st, ('f', base, f), fields[f][3]):
                    ctx.violation("children:%s:%s" % (tag, f), CH, fn.line, "%s: '%s' still holds what was kept for the message (path %s)" % (what, f, trace_str(st.trace)))
    replies = set(SIGNAL.values()) | {"reply-code"}
    relevant = relevant_functions(p, CH, rec, fields)
    class EndRule(ChildRule):
        def event(self, st, ev):
            if ev[0] == 'emit' and ev[1] not in replies or ev[0] == 'record': return
            if ev[0] == 'child': ev = ev[:2]
            if ev not in st.mon[1]: st.mon = (st.mon[0], st.mon[1] + (ev,))
        def on_call(self, eng, st, fr, name, args, node):
            f = self.p.resolve(name, fr.fn.file)
            if f is not None and f.file == CH and f.name not in relevant and not NOTBODY.search(name): return [(st, self.result(eng, st, fr, node, name))]
            r = ChildRule.on_call(self, eng, st, fr, name, args, node)
            # another object doesn't change what this one keeps
            if r is None and name.startswith(('milter_server_context_', 'milter_manager_child_')) and not self.p.resolve(name, fr.fn.file) is None:
                return [(st, self.result(eng, st, fr, node, name))]
            return r
        def result(self, eng, st, fr, node, name): return eng.fresh(st, fr, (name, node['l']), name)
        def inline(self, eng, fn): return fn.file == CH and fn.name != 'milter_manager_children_abort' or fn.name in ('milter_status_compare', 'milter_status_is_pass')
    ab = p.need('milter_manager_children_abort', CH)
    cx = ('sym', 'param', ab.params[0]['n'], 0)
    class AbortRule(EndRule):
        def inline(self, eng, fn): return fn.file == CH
    # every field in use, and each of them alone
    names = sorted(fields)
    loads = [('all', names)] + [(f, [f]) for f in names]
    def load(eng, st, base, used):
        for f in names:
            if f not in used: st.env[('f', base, f)] = I(fields[f][3]); continue
            if fields[f][1] or f in text and fields[f][0] is None: st.env[('f', base, f)] = I(1 - fields[f][3]) if fields[f][1] else ('sym', 'kept', f, 0)
            else: st.env[('f', base, f)] = ('sym', 'kept', f, 0)
            v = st.env[('f', base, f)]
            if v[0] == 'sym': st.facts[v] = (1, INF, frozenset())
    base = ('d', ('priv', cx, 'miltermanagerchildren'))
    told, reset = set(), set()
    for lname, used in loads:
        eng = Engine(p, AbortRule(p, E(SP + "BODY")))
        rs = eng.run(ab, {}, lambda eng, st: load(eng, st, base, used)); ctx.used(eng)
        check("abort", ab, [(st, base) for st, v in rs], eng, "after the message is aborted", fields)
        for st, v in rs:
            for e in st.mon[1]:
                if e[0] == 'child': (told if e[1] == 'milter_server_context_abort' else reset).add(e[1])
        ctx.count("runs of the abort")
    if not told: ctx.violation("children:abort:children", CH, ab.line, "the children aren't told that the message is aborted")
    if 'milter_server_context_reset_message_related_data' not in reset: ctx.violation("children:abort:contexts", CH, ab.line, "what the children's contexts keep for the message isn't reset by an abort")
    S = lambda n: E("MILTER_STATUS_" + n)
    ended = 0
    class Last(EndRule):
        def on_call(self, eng, st, fr, name, args, node):
            if name in ('g_list_remove', 'g_list_delete_link', 'g_list_remove_link') and args and args[0] == QUEUE: return [(st, I0)]
            if name == 'g_queue_is_empty': return [(st, I1)]
            return EndRule.on_call(self, eng, st, fr, name, args, node)
    QUEUE = ('sym', 'kept', 'command_waiting_child_queue', 0)
    for sig in ('continue', 'accept', 'reject', 'temporary-failure', 'discard', 'reply-code'):
        h = handler(p, CH, sig)
        for sname in ['END_OF_MESSAGE'] + SIMPLE_STATES:
            s = E(SP + sname)
            eom = sname == 'END_OF_MESSAGE'
            b = ('d', ('priv', ('sym', 'param', h.params[-1]['n'], len(h.params) - 1), 'miltermanagerchildren'))
            for lname, used in loads if eom else [(f, [f]) for f in text] + [('text', text)]:
                for stored in (None,) if eom and lname != 'all' else (None, 'CONTINUE', 'REJECT', 'TEMPORARY_FAILURE', 'ACCEPT'):
                    rule = Last(p, s, evaluation=0, table=None if stored is None else S(stored))
                    eng = Engine(p, rule)
                    f0 = {'processing_state': I(s), 'state': I(s)}
                    def setup(eng, st, f=setup_priv(f0, h)):
                        f(eng, st)
                        load(eng, st, b, used)
                        for f, v in (('pending_message_request', I0), ('command_queue', I0), ('command_waiting_child_queue', QUEUE), ('emitted_reply_for_message_oriented_command', I0)):
                            if ('f', b, f) in st.env: st.env[('f', b, f)] = v
                        st.facts[QUEUE] = (1, INF, frozenset())
                    rs = eng.run(h, {}, setup)
                    ctx.used(eng); ctx.count("answers analysed")
                    for st, v in rs:
                        em = [e[1] for e in st.mon[1] if e[0] == 'emit' and e[1] in replies]
                        if not em: continue
                        which = list(fields) if eom and not ('abort-all',) in st.mon[1] else text
                        if eom: ended += 1
                        check("reply:%s" % ("end-of-message" if eom else "text"), h, [(st, b)], eng,
                              "after the reply '%s' to %s (the last child answers %s, recorded %s)" % (em[0], sname, sig, stored), which)
    if ended < 8: raise AnalysisBroken("the reply to the end of the message isn't found")
    # ---- the server context
    rec, initial = record(p, 'milter_server_context_init', SC)
    conn = connections(p, SC)
    cmds = [p.need('milter_server_context_' + m, SC) for m in MSG]
    ent = cmds + [p.resolve(h[0], SC) for sig, hs in conn.items() if sig not in SESSION and not sig.startswith('notify') for h in hs]
    ses = [p.need('milter_server_context_' + m, SC) for m in ('negotiate', 'connect', 'helo', 'quit')] + \
          [p.resolve(h[0], SC) for sig, hs in conn.items() if sig in SESSION for h in hs]
    fl = vfunc(p, SC, 'flushed')
    ent.append(fl)
    fields_s = kept(p, SC, ent, ses, rec, initial, True)
    m = Model(p)
    for f in (m.skipf, m.processingf): fields_s.setdefault(f, (None, True, set(), 0))
    buf = strings(p, SC, ent, rec)
    rst = p.need('milter_server_context_reset_message_related_data', SC)
    cx = ('sym', 'param', rst.params[0]['n'], 0)
    fields_s = {f: x for f, x in fields_s.items() if not overwritten(p, SC, cmds, f, x[2])}
    final(ctx, p, SC, rst, cx, m.base(cx), fields_s, buf, "server", 5)
    # an MTA doesn't abort a message which is finished: what an answer to it left is cleared when the next message starts
    left = [f for f, x in kept(p, SC, [h for h in ent if h not in cmds and h is not fl], ses, rec, initial, True).items() if not (x[0] or '').endswith('*') and f in fields_s]
    if m.skipf not in left: raise AnalysisBroken("the answer which skips the body isn't found")
    for f in left:
        ctx.count("marks left by answers")
        if not cleaned(p, SC, cmds[:1], f, fields_s[f][3], lambda eng: m.base(eng.cx), 0):
            ctx.violation("server:next:%s" % f, SC, cmds[0].line, "%s: what an answer to the previous message left in '%s' is still there" % (cmds[0].name, f))
    # ---- the client context
    rec, initial = record(p, 'milter_client_context_init', CC)
    conn = connections(p, CC)
    H = lambda s: p.resolve(conn[s][0][0], CC)
    msgs = ['envelope-from', 'envelope-recipient', 'data', 'header', 'end-of-header', 'body', 'end-of-message']
    for s in msgs + ['abort', 'negotiate', 'connect', 'helo']:
        if s not in conn: raise AnalysisBroken("no handler of '%s' in the client context" % s)
    cmds = [H(s) for s in msgs]
    api = ['add_header', 'insert_header', 'change_header', 'delete_header', 'change_from', 'add_recipient', 'delete_recipient', 'replace_body', 'quarantine', 'set_reply', 'progress']
    ent = cmds + [p.need('milter_client_context_' + a, CC) for a in api]
    ses = [H(s) for s in ('negotiate', 'connect', 'helo')]
    fields_c = kept(p, CC, ent, ses, rec, initial, True)
    buf = strings(p, CC, ent, rec)
    if not buf: raise AnalysisBroken("the buffer of the modifications isn't found")
    fields_c = {f: x for f, x in fields_c.items() if not overwritten(p, CC, cmds, f, x[2], 'emit')}
    fields_c.setdefault(getter_loc(p, 'milter_client_context_get_message_result', CC)[0], (None, False, set(), 0))
    ab = H('abort')
    cx = ('sym', 'param', ab.params[-1]['n'], len(ab.params) - 1)
    _, sloc = getter_loc(p, 'milter_client_context_get_state', CC)
    # the reason of a quarantine is only looked at by the reply to the end of the message
    quar = getter_loc(p, 'milter_client_context_get_quarantine_reason', CC)[0]
    if cleaned(p, CC, cmds[-1:], quar, 0, lambda eng: sloc(eng.cx)[1]): fields_c.pop(quar, None)
    else: fields_c.setdefault(quar, (None, False, set(), 0))
    final(ctx, p, CC, ab, cx, sloc(cx)[1], fields_c, buf, "client", 5)
    ctx.floor("fields kept for a message", 26)
    ctx.floor("paths which end a message", 60)
    ctx.assume("a message ends with the reply to its end or with an abort, which the MTA sends before it starts another message otherwise")
def direct(p, fn, f, rec, initial):
    """fn itself, or a static helper, keeps something else than the initial value in f"""
    return any(const(y) is None or const(y) != (initial.get(f) or 0) for t, y, n in stores(p, CH, [fn], rec)[f] if n == fn.name) or \
        any(const(y) is None for t, y, n in stores(p, CH, [fn], rec)[f]) and f.startswith('reply')
def restarted_flag(p, entries, f, x): return x[1] and restarted(p, CH, entries, f, x[3])
def final(ctx, p, file, fn, cx, base, fields, buf, who, floor):
    eng = Engine(p, Stores(p, file))
    rs = eng.run(fn); ctx.used(eng)
    if len(fields) < floor: raise AnalysisBroken("only the fields %s of the %s context are found" % (sorted(fields), who))
    for f in fields: ctx.count("fields kept for a message"); ctx.sample(who + ": " + f)
    for st, v in rs:
        ctx.count("paths which end a message")
        for f, x in fields.items():
            if not clean(eng, st, ('f', base, f), x[3]):
                ctx.violation("%s:%s" % (who, f), file, fn.line, "%s: '%s' still holds what was kept for the message (path %s)" % (fn.name, f, trace_str(st.trace)))
        for f, g in buf.items():
            if not any(e[0] == 'truncate' and field_of(e[1]) == f for e in st.mon) and not clean(eng, st, ('f', base, f), 0):
                ctx.violation("%s:%s" % (who, f), file, fn.line, "%s: what %s put in '%s' for the message is still there (path %s)" % (fn.name, g, f, trace_str(st.trace)))
        if not events(st, 'macros'): ctx.violation("%s:macros" % who, file, fn.line, "%s: the macros of the message are kept (path %s)" % (fn.name, trace_str(st.trace)))
