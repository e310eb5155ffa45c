"""End-to-end driver for demonstrations: a real milter-manager daemon between a scripted MTA and scripted child milters.
Everything lives in a scratch directory and on loopback ports picked free at run time."""
import os, re, shutil, signal, socket, struct, subprocess, sys, tempfile, threading, time
REPO = os.environ.get("DEMO_REPO", os.getcwd())
B = os.path.join(REPO, "_build")

def env():
    e = dict(os.environ)
    rb = os.path.join(B, "binding/ruby")
    e["RUBYLIB"] = ":".join([os.path.join(REPO, "binding/ruby/lib")] +
                            [os.path.join(rb, "ext", x, ".libs") for x in ("core", "client", "server", "manager")])
    e["MILTER_MANAGER_CONFIGURATION_MODULE_DIR"] = os.path.join(B, "module/configuration/ruby/.libs")
    e.pop("MAKELEVEL", None); e.pop("MAKEFLAGS", None)
    e.setdefault("LANG", "C.UTF-8")
    return e

def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p

def recvn(s, n):
    d = b""
    while len(d) < n:
        c = s.recv(n - len(d))
        if not c: raise EOFError
        d += c
    return d

def recv_packet(s):
    n, = struct.unpack("!I", recvn(s, 4))
    d = recvn(s, n)
    return chr(d[0]), d[1:]

def send_packet(s, op, data=b""):
    s.sendall(struct.pack("!I", len(data) + 1) + op.encode() + data)

class Child(threading.Thread):
    """script: dict opcode -> list of actions or callable; an action is bytes opcode str, (op,data), 'close', 'hang', ('sleep',n).
    Default answer: 'c'.  self.log collects the received (op, data)."""
    NEG = struct.pack("!III", 6, 0x1ff, 0)
    def __init__(self, script=None, negotiate=None):
        super().__init__(daemon=True)
        self.script, self.neg = script or {}, negotiate or self.NEG
        self.log = []; self.conns = 0
        self.srv = socket.socket(); self.srv.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.srv.bind(("127.0.0.1", 0)); self.srv.listen(16)
        self.port = self.srv.getsockname()[1]
        self.start()
    def run(self):
        while True:
            try: s, _ = self.srv.accept()
            except OSError: return
            self.conns += 1
            threading.Thread(target=self.serve, args=(s,), daemon=True).start()
    def serve(self, s):
        try:
            while True:
                op, data = recv_packet(s)
                self.log.append((op, data))
                acts = self.script.get(op)
                if callable(acts): acts = acts(self, data)
                if acts is None:
                    if op == 'O': acts = [('O', self.neg)]
                    elif op in 'DAQK': acts = []
                    else: acts = ['c']
                for a in acts:
                    if a == 'close': s.close(); return
                    if a == 'hang': continue
                    if isinstance(a, tuple) and a[0] == 'sleep': time.sleep(a[1]); continue
                    if isinstance(a, tuple): send_packet(s, *a)
                    elif isinstance(a, bytes): s.sendall(a)
                    else: send_packet(s, a)
                if op == 'Q': s.close(); return
        except (EOFError, OSError): pass
    def ops(self): return "".join(o for o, _ in self.log if o != 'D')

class Manager:
    def __init__(self, children, conf="", per_child="", opts=(), n_env=None):
        """children: list of (name, Child or spec, extra ruby lines)"""
        self.dir = tempfile.mkdtemp(prefix="mmdemo")
        self.port = free_port(); self.ctl = os.path.join(self.dir, "control.sock")
        lines = ['manager.event_loop_backend = "glib"', 'manager.n_workers = 0',
                 'manager.connection_spec = "inet:%d@[127.0.0.1]"' % self.port,
                 'manager.unix_socket_group = nil', 'manager.pid_file = nil',
                 'controller.connection_spec = nil' if not n_env else '',
                 'security.effective_user = nil', 'security.effective_group = nil']
        lines.append(conf)
        for name, c, extra in children:
            spec = c if isinstance(c, str) else "inet:%d@127.0.0.1" % c.port
            lines += ['define_milter("%s") do |milter|' % name, '  milter.connection_spec = "%s"' % spec,
                      '  milter.enabled = true', '  ' + extra, 'end']
        os.mkdir(os.path.join(self.dir, "conf"))
        cf = os.path.join(self.dir, "conf", "milter-manager.conf")
        open(cf, "w").write("\n".join(lines) + "\n")
        e = env(); e.update(n_env or {})
        self.logf = os.path.join(self.dir, "log")
        self.p = subprocess.Popen([os.path.join(B, "src/milter-manager"), "--config-dir", os.path.join(self.dir, "conf"), *opts],
                                  env=e, cwd=self.dir, stdout=open(self.logf, "w"), stderr=subprocess.STDOUT, start_new_session=True)
        for _ in range(200):
            try:
                s = socket.create_connection(("127.0.0.1", self.port), 1); s.close(); break
            except OSError:
                if self.p.poll() is not None: break
                time.sleep(0.05)
        else: raise RuntimeError("manager didn't start: " + self.log())
    def log(self): return open(self.logf, errors="replace").read()
    def alive(self): return self.p.poll() is None
    def close(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

class MTA:
    def __init__(self, port, timeout=8):
        self.s = socket.create_connection(("127.0.0.1", port), 5); self.s.settimeout(timeout)
    def cmd(self, op, data=b""):
        """send and collect replies up to the final one"""
        send_packet(self.s, op, data)
        return self.replies(op)
    def replies(self, op=''):
        out = []
        while True:
            o, d = recv_packet(self.s)
            out.append((o, d))
            if o in 'catrdsyO' : return out
            if o == 'p': continue
    def negotiate(self, version=6, action=0x1ff, step=0x1fffff): return self.cmd('O', struct.pack("!III", version, action, step))
    def connect(self, host=b"client.example.com", ip=b"192.168.1.1"):
        return self.cmd('C', host + b"\0" + b"4" + struct.pack("!H", 50443) + ip + b"\0")
    def helo(self, n=b"delian"): return self.cmd('H', n + b"\0")
    def mail(self, a=b"<from@example.com>"): return self.cmd('M', a + b"\0")
    def rcpt(self, a=b"<to@example.com>"): return self.cmd('R', a + b"\0")
    def data(self): return self.cmd('T')
    def header(self, n=b"Subject", v=b"hi"): return self.cmd('L', n + b"\0" + v + b"\0")
    def eoh(self): return self.cmd('N')
    def body(self, b=b"body\r\n"): return self.cmd('B', b)
    def eom(self, b=b""): return self.cmd('E', b)
    def macro(self, op, *kv): send_packet(self.s, 'D', op.encode() + b"".join(x + b"\0" for x in kv))
    def quit(self): send_packet(self.s, 'Q')
    def abort(self): send_packet(self.s, 'A')
    def close(self): self.s.close()

def final(r): return r[-1][0]
