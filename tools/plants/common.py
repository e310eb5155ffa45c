import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
LIBS = {"core": "milter/core", "client": "milter/client", "server": "milter/server", "manager": "milter/manager"}
def csh(*libs):
    fl = " ".join('-L"$R/_build/%s/.libs" -Wl,-rpath,"$R/_build/%s/.libs"' % (LIBS[l], LIBS[l]) for l in libs)
    ll = " ".join("-lmilter-" + l for l in libs)
    inc = " ".join('-I"$R/_build/%s"' % LIBS[l] for l in libs)
    return '''#!/bin/sh
R="$PWD"; T=$(mktemp -d) || exit 99
trap 'rm -r "$T"' EXIT
gcc -w "$(dirname "$0")/demo.c" -o "$T/demo" -I"$R" -I"$R/_build" %s $(pkg-config --cflags glib-2.0 gobject-2.0 gio-2.0 gmodule-2.0) %s %s $(pkg-config --libs glib-2.0 gobject-2.0 gio-2.0 gmodule-2.0) || exit 99
cd "$T" && timeout 60 "$T/demo"
''' % (inc, fl, ll)
CORE = csh("core")
CLIENT = r"""
#define _GNU_SOURCE
#include <fcntl.h>
#include <milter/client.h>
#include <unistd.h>
#include <string.h>
#include <stdio.h>
#include <poll.h>
/* a client context fed by hand; what it writes is collected from a pipe */
static MilterClientContext *ctx; static int fds[2]; static MilterEventLoop *loop; static MilterClient *client;
static void start (void) {
  milter_init(); milter_client_init();
  if (pipe(fds)) _exit(2);
  fcntl(fds[1], F_SETPIPE_SZ, 1000000);
  client = milter_client_new();
  loop = milter_glib_event_loop_new(NULL);
  ctx = milter_client_context_new(client);
  milter_agent_set_event_loop(MILTER_AGENT(ctx), loop);
  GIOChannel *c = g_io_channel_unix_new(fds[1]); g_io_channel_set_encoding(c, NULL, NULL);
  milter_agent_set_writer(MILTER_AGENT(ctx), milter_writer_io_channel_new(c));
  GError *e = NULL;
  if (!milter_agent_start(MILTER_AGENT(ctx), &e)) { printf("start: %s\n", e ? e->message : "?"); _exit(2); }
}
static void feed (char op, const void *data, int n) {
  char b[4096]; b[0] = b[1] = 0; b[2] = (n + 1) >> 8; b[3] = n + 1; b[4] = op; memcpy(b + 5, data, n);
  GError *e = NULL;
  if (!milter_client_context_feed(ctx, b, n + 5, &e)) printf("feed %c: %s\n", op, e ? e->message : "?");
}
static char got[1 << 20]; static int ngot;
static void collect (void) {
  int i; struct pollfd f = {fds[0], POLLIN, 0};
  for (i = 0; i < 10; i++) milter_event_loop_iterate(loop, FALSE);
  ngot = 0;
  while (poll(&f, 1, 20) > 0) { int r = read(fds[0], got + ngot, sizeof got - ngot); if (r <= 0) break; ngot += r; }
}
/* opcodes of the packets collected */
static const char *ops (void) {
  static char o[100]; int k = 0, p = 0;
  while (p + 5 <= ngot && k < 90) { o[k++] = got[p + 4]; p += 4 + ((got[p + 2] & 255) << 8 | (got[p + 3] & 255)); }
  if (p != ngot) o[k++] = '?';
  o[k] = 0; return o;
}
static void negotiate (void) { feed('O', "\0\0\0\6\0\0\1\377\0\37\377\377", 12); collect(); }
"""
CLIENTSH = csh("core", "client")

SERVER = CLIENT[:CLIENT.index("static void start")].replace("client.h", "server.h").replace("/* a client context", "/* a server context").replace("MilterClientContext *ctx;", "MilterServerContext *ctx;").replace("; static MilterClient *client", "").replace("int fds[2]", "int fds[2], in[2]") + r"""
static void start (void) {
  milter_init(); milter_server_init();
  if (pipe(fds) || pipe(in)) _exit(2);
  fcntl(fds[1], F_SETPIPE_SZ, 1000000);
  loop = milter_glib_event_loop_new(NULL);
  ctx = milter_server_context_new();
  milter_agent_set_event_loop(MILTER_AGENT(ctx), loop);
  GIOChannel *c = g_io_channel_unix_new(fds[1]); g_io_channel_set_encoding(c, NULL, NULL);
  milter_agent_set_writer(MILTER_AGENT(ctx), milter_writer_io_channel_new(c));
  c = g_io_channel_unix_new(in[0]); g_io_channel_set_encoding(c, NULL, NULL); g_io_channel_set_flags(c, G_IO_FLAG_NONBLOCK, NULL);
  milter_agent_set_reader(MILTER_AGENT(ctx), milter_reader_io_channel_new(c));
  GError *e = NULL;
  if (!milter_agent_start(MILTER_AGENT(ctx), &e)) { printf("start: %s\n", e ? e->message : "?"); _exit(2); }
}
static void turn (void) { int i; for (i = 0; i < 20; i++) milter_event_loop_iterate(loop, FALSE); }
static void feed (char op, const void *data, int n) {
  char b[4096]; b[0] = b[1] = 0; b[2] = (n + 1) >> 8; b[3] = n + 1; b[4] = op; memcpy(b + 5, data, n);
  if (write(in[1], b, n + 5) != n + 5) _exit(2);
  turn();
}
""" + CLIENT[CLIENT.index("static char got["):CLIENT.index("static void negotiate")] + r"""
static void negotiate (unsigned step) {
  MilterOption *o = milter_option_new(6, 0x1ff, step);
  char b[12] = {0, 0, 0, 6, 0, 0, 1, (char)0xff, step >> 24, step >> 16, step >> 8, step};
  milter_server_context_negotiate(ctx, o); collect(); feed('O', b, 12);
}
"""
SERVERSH = csh("core", "server")
