"""C34: rights are given up before anything is run with them, completely and in the right order."""
from absint import *
from facts import AnalysisBroken
LAUNCHER, CLIENT, MAIN = 'milter/manager/milter-manager-process-launcher.c', 'milter/client/milter-client.c', 'milter/manager/milter-manager-main.c'
GID = {'setgid': 0, 'setregid': 1, 'setresgid': 1}
UID = {'setuid': 0, 'setreuid': 1, 'setresuid': 1}
CHANGES = set(GID) | set(UID) | {'initgroups', 'setgroups', 'setegid', 'seteuid', 'chown', 'lchown', 'fchown'}
STOPS = {'_exit', 'exit', '_Exit', 'abort', 'g_assert_not_reached', 'g_assertion_message_expr', 'g_abort', '__assert_fail', 'execl', 'kill_'}

class R(Rule):
    """mon: what happened, in order"""
    max_depth = 8
    block_cap = 400
    steps = ()
    def __init__(self, p, file, reach=None):
        self.p, self.file, self.reach = p, file, reach
        self.spawns = []
    def inline(self, eng, f): return f.file == self.file and (self.reach is None or f.key() in self.reach)
    def ev(self, st, *e):
        if not st.mon or st.mon[-1] != e: st.mon = st.mon + (e,)
    def on_call(self, eng, st, fr, name, args, node):
        if name == 'milter_logger_get_interesting_level': return [(st, I0)]
        if name in STOPS: return []
        if name in CHANGES:
            a = tuple(eng.canon(st, x) for x in args)
            s = st.copy()
            self.ev(s, 'failed', name)
            self.ev(st, 'did', name, a)
            return [(st, I0), (s, I(-1))]
        if name in ('geteuid', 'getuid'): return [(st, ('call', name))]
        if name in ('getpwnam', 'getgrnam', 'milter_client_get_effective_user', 'milter_client_get_effective_group', 'milter_manager_configuration_is_privilege_mode'):
            return [(st, ('call', name) + tuple(eng.canon(st, a) for a in args))]
        if name == 'getpwnam_r' and args[4][0] == '&':
            s = st.copy()
            v = ('call', 'getpwnam', eng.canon(st, args[0]))
            eng.store(st, fr, args[4][1], v, node); eng.constrain(st, v, ne=0)
            eng.store(s, fr, args[4][1], I0, node)
            return [(st, I0), (s, ('call', 'getpwnam_r-error'))]
        if name == 'g_shell_parse_argv' and args[2][0] == '&':
            s = st.copy()
            eng.store(st, fr, args[2][1], ('call', 'argv', eng.canon(st, args[0])), node)
            return [(st, I1), (s, I0)]
        if name.startswith(('g_spawn_async', 'g_spawn_sync')):
            s = st.copy()
            a = [eng.canon(st, x) for x in args]
            self.ev(st, 'spawn', a[4], a[5], a[1], node['l']); self.ev(s, 'spawn', a[4], a[5], a[1], node['l'])
            self.ev(s, 'failed', 'spawn')
            return [(st, I1), (s, I0)]
        if name.startswith(('g_spawn_', 'popen', 'posix_spawn', 'execv', 'system')) or name == 'system': self.ev(st, 'other-spawn', name, node['l'])
        if name == 'milter_client_fork':
            a, b = st.copy(), st.copy()
            self.ev(st, 'fork', eng.truth(st, ('call', 'milter_manager_configuration_is_privilege_mode', self.config)) if self.config else None)
            self.ev(a, 'child'); self.ev(b, 'failed', 'fork')
            v = eng.fresh(st, fr, ('pid', node['l']), 'pid'); eng.constrain(st, v, lo=1)
            return [(st, v), (a, I0), (b, I(-1))]
        if name in self.steps:
            s = st.copy()
            self.ev(st, name); self.ev(s, 'failed', name)
            return [(st, I1), (s, I0)]
        if name.endswith(('_encode_success', '_encode_error')): self.ev(st, 'reply', name.rsplit('_', 1)[1])
        if name == 'milter_agent_write_packet': self.ev(st, 'written')
        return None
    config = None

def calls(f, name): return [x for _, _, e in f.exprs() for x in walk_stmt(e) if x['k'] == 'call' and x.get('fn') and name(x['fn'])]

def ids(st, eng, pw, group):
    """what is missing until the process has the rights of the password entry (and the group)"""
    fld = lambda o, f: ('ld', ('f', ('d', o), f))
    done = [e for e in st.mon if e[0] == 'did']
    gid = fld(*group) if group else fld(pw, 'pw_gid')
    g = [n for n, e in enumerate(done) if e[1] in GID and e[2][GID[e[1]]] == gid]
    i = [n for n, e in enumerate(done) if e[1] == 'initgroups' and e[2] == (fld(pw, 'pw_name'), gid) or e[1] == 'setgroups']
    u = [n for n, e in enumerate(done) if e[1] in UID and e[2][UID[e[1]]] == fld(pw, 'pw_uid')]
    if group is None or group:
        if not g: return "without changing to the group"
        if not i: return "without the groups of the user"
    if not u: return "without changing to the user"
    if (group is None or group) and (g[0] > u[0] or i[0] > u[0]): return "changing the groups only after the user, without the right to do so"
    return None

def run(ctx):
    p = ctx.prog
    ctx.explanation = ("The launcher's handler of a launch command, the function a new process runs before the command, milter_client_drop_privilege and milter_manager_main are interpreted abstractly with every "
                       "system call failing or not: which rights a path has given up, of which user, in which order, before it starts a command, succeeds or serves.")
    ctx.assume("setgid(), initgroups() and setuid() called by root change the real, effective and saved ids")
    # the launcher
    conn = [x for f in p.fns.values() if f.file == LAUNCHER for x in calls(f, lambda n: n == 'g_signal_connect_data') if x['a'][1].get('k') == 'str' and x['a'][1].get('s', x['a'][1].get('v')) == 'launch']
    hs = {y['n'] for x in conn for y in walk_stmt({'k': 'ex', 'x': x['a'][2]}) if y['k'] == 'fn'}
    setups = set()
    for h in hs:
        f = p.resolve(h, LAUNCHER)
        rule = R(p, LAUNCHER)
        eng = Engine(p, rule)
        prm = [('sym', 'param', q['n'], n) for n, q in enumerate(f.params)]
        command, user = prm[1], prm[2]
        def setup(eng, st): eng.constrain(st, command, ne=0)
        for st, v in eng.run(f, {}, setup):
            ctx.count("paths")
            V = lambda key, line, msg: ctx.violation("launch:" + key, LAUNCHER, line, "%s: %s (path %s)" % (h, msg, trace_str(st.trace)))
            sp = [e for e in st.mon if e[0] == 'spawn']
            for e in sp:
                ctx.count("spawn paths")
                if e[1][0] != 'fn': V("setup", e[4], "the command is started without a function which changes the user")
                else: setups.add(e[1][1])
                if e[3] != ('call', 'argv', command): V("command", e[4], "what is started isn't the command asked for")
                t = eng.truth(st, user)
                pw = ('call', 'getpwnam', user)
                if t is not False and (e[2] != pw or eng.truth(st, pw) is not True): V("user", e[4], "the command is started though the user asked for isn't known")
                if t is False and e[2] != I0: V("no-user", e[4], "the command is started with the rights of a user who wasn't asked for")
            if len(sp) > 1: V("twice", sp[1][4], "the command is started twice")
            if any(e[0] == 'other-spawn' for e in st.mon): V("other", f.line, "a command is started in a way which doesn't change the user")
            ok = bool(sp) and ('failed', 'spawn') not in st.mon
            rep = [e[1] for e in st.mon if e[0] == 'reply']
            if rep != ['success' if ok else 'error'] or ('written',) not in st.mon: V("reply", f.line, "the command is %s, but the answer is %s" % ("started" if ok else "not started", " and ".join(rep) or "missing"))
        ctx.used(eng)
    for name in sorted(setups):
        f = p.resolve(name, LAUNCHER)
        if f is None: raise AnalysisBroken("the child setup function %s isn't found" % name)
        ctx.count("child setup functions"); ctx.sample("child setup function: " + name)
        rule = R(p, LAUNCHER)
        eng = Engine(p, rule)
        pw = ('sym', 'param', f.params[0]['n'], 0)
        for st, v in eng.run(f, {}):
            ctx.count("paths")
            if eng.truth(st, pw) is False or eng.truth(st, ('call', 'geteuid')) is True or eng.truth(st, ('call', 'getuid')) is True: continue
            ctx.count("setup paths as root")
            w = ids(st, eng, pw, None)
            if w: ctx.violation("setup:rights", LAUNCHER, f.line, "%s: the command is run as root or with its groups, %s (path %s)" % (name, w, trace_str(st.trace)))
        ctx.used(eng)
    # dropping the privileges
    f = p.resolve('milter_client_drop_privilege', CLIENT)
    rule = R(p, CLIENT)
    rule.inline = lambda eng, g: g.file == CLIENT and not g.name.startswith('milter_client_get_')
    eng = Engine(p, rule)
    c = ('sym', 'param', f.params[0]['n'], 0)
    user, group = ('call', 'milter_client_get_effective_user', c), ('call', 'milter_client_get_effective_group', c)
    for st, v in eng.run(f, {}, lambda eng, st: eng.constrain(st, c, ne=0)):
        ctx.count("paths")
        if eng.truth(st, v) is False: continue
        if eng.truth(st, ('call', 'geteuid')) is True: continue
        ctx.count("drop paths")
        t = eng.truth(st, user)
        who = user if t is True else None
        pws = [y for e in st.mon if e[0] == 'did' for x in e[2] for y in subterms(x) if y[:2] == ('call', 'getpwnam')]
        names = [user] if t is True else [('s', 'nobody')] if t is False else [user, ('s', 'nobody')]
        okp = [y for y in pws if y[2] in names and eng.truth(st, y) is True]
        V = lambda key, msg: ctx.violation("drop:" + key, CLIENT, f.line, "%s: it succeeds %s (path %s)" % (f.name, msg, trace_str(st.trace)))
        if not okp: V("user", "without changing to the effective user"); continue
        g = eng.truth(st, group)
        if g is None: V("group", "without looking at the effective group"); continue
        gr = ('call', 'getgrnam', group)
        if g and eng.truth(st, gr) is not True: V("group", "without finding the effective group"); continue
        w = ids(st, eng, okp[0], (gr, 'gr_gid') if g else False)
        if w: V("rights", w)
        if any(e[0] == 'failed' for e in st.mon): V("failed", "though %s failed" % [e[1] for e in st.mon if e[0] == 'failed'][0])
    ctx.used(eng)
    # the manager
    f = p.resolve('milter_manager_main', MAIN)
    steps = ('milter_client_listen', 'milter_client_drop_privilege', 'milter_client_daemonize', 'milter_client_run')
    direct = {g.key() for g in p.fns.values() if g.file == MAIN and calls(g, lambda n: n in steps or n == 'milter_client_fork')}
    reach = set(direct)
    while True:
        new = {g.key() for g in p.fns.values() if g.file == MAIN and g.key() not in reach and any(x.key() in reach for x in p.callees(g))}
        if not new: break
        reach |= new
    rule = R(p, MAIN, reach)
    rule.steps = steps
    eng = Engine(p, rule)
    conf = []
    base = R.on_call
    def on_call(eng, st, fr, name, args, node):
        if name == 'milter_manager_get_configuration': return [(st, ('call', 'configuration'))]
        if name.startswith(('milter_manager_configuration_', 'milter_manager_reload', 'sig')) and name != 'milter_manager_configuration_is_privilege_mode': return [(st, ('call', name))]
        return base(rule, eng, st, fr, name, args, node)
    rule.on_call = on_call
    rule.config = ('call', 'configuration')
    mode = ('call', 'milter_manager_configuration_is_privilege_mode', rule.config)
    ran = 0
    for st, v in eng.run(f, {}):
        ctx.count("paths")
        V = lambda key, msg: ctx.violation("main:" + key, MAIN, f.line, "%s: %s (path %s)" % (f.name, msg, trace_str(st.trace)))
        ks = [e[0] for e in st.mon]
        if 'child' in ks: V("child", "the launcher's process goes on as the manager"); continue
        fail = [e[1] for e in st.mon if e[0] == 'failed' and e[1] != 'milter_client_run']
        served = 'milter_client_run' in ks or ('failed', 'milter_client_run') in st.mon
        if served:
            ran += 1
            ctx.count("serving paths")
            if 'milter_client_drop_privilege' not in ks: V("drop", "the manager serves without having dropped its privileges")
            if 'milter_client_listen' not in ks: V("listen", "the manager serves without listening")
            elif 'milter_client_drop_privilege' in ks and ks.index('milter_client_listen') > ks.index('milter_client_drop_privilege'): V("listen-late", "the manager listens only after it dropped its privileges")
            if 'fork' in ks:
                if 'milter_client_drop_privilege' in ks and ks.index('fork') > ks.index('milter_client_drop_privilege'): V("launcher-late", "the launcher is started without privileges")
            elif eng.truth(st, mode) is not False: V("launcher", "the manager serves in the privilege mode without a launcher")
            if fail: V("failed", "the manager serves though %s failed" % fail[0])
        for e in st.mon:
            if e[0] == 'fork' and e[1] is not True: V("mode", "the launcher is started although the privilege mode isn't set")
    ctx.used(eng)
    ctx.floor("spawn paths", 2); ctx.floor("child setup functions", 1); ctx.floor("setup paths as root", 1); ctx.floor("drop paths", 4); ctx.floor("serving paths", 4)

def subterms(v):
    if isinstance(v, tuple):
        yield v
        for x in v[1:]:
            yield from subterms(x)
