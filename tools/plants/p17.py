from common import *
A="milter/core/milter-agent.c"; W="milter/core/milter-writer.c"; H="milter/manager/milter-manager-children.c"
HEAD=r'''
#include <milter/client.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
static MilterAgent *agent (MilterEventLoop **loop) {
  milter_init(); milter_client_init();
  *loop = milter_glib_event_loop_new(NULL);
  MilterAgent *a = MILTER_AGENT(milter_client_context_new(milter_client_new()));
  milter_agent_set_event_loop(a, *loop);
  return a;
}
static GIOChannel *chan (int fd) { GIOChannel *c = g_io_channel_unix_new(fd); g_io_channel_set_encoding(c, NULL, NULL); return c; }
static int n;
static void count (void) { n++; }
static void turn (MilterEventLoop *l) { int i; for (i = 0; i < 20; i++) milter_event_loop_iterate(l, FALSE); }
'''
plant("S35","C25",[(A,"""    if (!priv->finished)
        milter_finished_emittable_emit(MILTER_FINISHED_EMITTABLE(agent));
}""","""    if (!priv->finished && !priv->shutting_down)
        milter_finished_emittable_emit(MILTER_FINISHED_EMITTABLE(agent));
}""")],
 "shutting down an agent which still reads", "the agent never announces that it has finished, its session stays open", HEAD+r'''
int main (void) {
  MilterEventLoop *l; MilterAgent *a = agent(&l); int in[2], out[2]; GError *e = NULL;
  if (pipe(in) || pipe(out)) return 2;
  milter_agent_set_reader(a, milter_reader_io_channel_new(chan(in[0])));
  milter_agent_set_writer(a, milter_writer_io_channel_new(chan(out[1])));
  g_signal_connect(a, "finished", G_CALLBACK(count), NULL);
  if (!milter_agent_start(a, &e)) return 2;
  turn(l); milter_agent_shutdown(a); turn(l);
  printf("finished %d times\n", n);
  return n != 1;
}''', CLIENTSH)
plant("S36","C10",[(A,"        DISCONNECT(flushed);\n","")],
 "a writer which is replaced while someone else keeps it", "the agent announces what its former writer wrote as its own", HEAD+r'''
int main (void) {
  MilterEventLoop *l; MilterAgent *a = agent(&l); int p1[2], p2[2];
  if (pipe(p1) || pipe(p2)) return 2;
  MilterWriter *w1 = milter_writer_io_channel_new(chan(p1[1])), *w2 = milter_writer_io_channel_new(chan(p2[1]));
  milter_agent_set_writer(a, w1); milter_agent_set_writer(a, w2);
  g_signal_connect(a, "flushed", G_CALLBACK(count), NULL);
  GError *e = NULL;
  milter_writer_start(w1, l);
  milter_writer_write(w1, "x", 1, &e); milter_writer_flush(w1, &e); turn(l);
  printf("flushed %d times\n", n);
  return n != 0;
}''', CLIENTSH)
plant("S37","C32",[(W,"""        priv->error_watch_id = 0;
        clear_write_watch_id(priv);
        clear_flush_watch_id(priv);
        milter_finished_emittable_emit(MILTER_FINISHED_EMITTABLE(writer));
""","""        clear_write_watch_id(priv);
        clear_flush_watch_id(priv);
        milter_finished_emittable_emit(MILTER_FINISHED_EMITTABLE(writer));
        priv->error_watch_id = 0;
""")],
 "a connection which the other side closes while only the agent keeps the writer", "the writer is written to after it was freed", HEAD+r'''
int main (void) {
  MilterEventLoop *l; MilterAgent *a = agent(&l); int p[2]; GError *e = NULL;
  if (pipe(p)) return 2;
  MilterWriter *w = milter_writer_io_channel_new(chan(p[1]));
  milter_agent_set_writer(a, w); g_object_unref(w);
  if (!milter_agent_start(a, &e)) return 2;
  close(p[0]); turn(l);
  printf("done\n");
  return 0;
}''', CLIENTSH.replace('timeout 60 "$T/demo"','timeout 200 env G_SLICE=always-malloc valgrind -q --error-exitcode=1 --undef-value-errors=no "$T/demo"'))
plant("S38","C10",[(H,"    DISCONNECT(skip);\n","")],
 "a child which answers skip after it was given up", "its answer is still taken for the message", HEAD+r'''
#include <milter/manager.h>
#include <milter/manager/milter-manager-children.h>
#include <sys/socket.h>
#include <sys/un.h>
int main (void) {
  milter_init(); milter_client_init(); milter_server_init();
  MilterEventLoop *l = milter_glib_event_loop_new(NULL);
  MilterManagerConfiguration *conf = g_object_new(milter_manager_configuration_get_type(), NULL);
  MilterManagerChildren *c = milter_manager_children_new(conf, l);
  MilterManagerChild *m = milter_manager_child_new("m");
  g_object_ref(m);
  milter_manager_children_add_child(c, m);
  milter_agent_set_event_loop(MILTER_AGENT(m), l);
  struct sockaddr_un u = {AF_UNIX}; char path[100], spec[200]; int s = socket(AF_UNIX, SOCK_STREAM, 0); GError *e = NULL;
  if (!getcwd(path, 80)) return 2;
  sprintf(u.sun_path, "%s/s", path); sprintf(spec, "unix:%s/s", path);
  if (bind(s, (void *)&u, sizeof u) || listen(s, 5)) return 2;
  if (!milter_server_context_set_connection_spec(MILTER_SERVER_CONTEXT(m), spec, &e)) return 2;
  MilterOption *o = milter_option_new(6, MILTER_ACTION_ADD_HEADERS, MILTER_STEP_NONE);
  milter_manager_children_negotiate(c, o, NULL);
  turn(l);
  guint sk = g_signal_lookup("progress", G_OBJECT_TYPE(m));
  if (!g_signal_handler_find(m, G_SIGNAL_MATCH_ID, sk, 0, NULL, NULL, NULL)) { puts("not connected"); return 2; }
  g_object_unref(c);
  guint id = g_signal_lookup("skip", G_OBJECT_TYPE(m));
  gulong h = g_signal_handler_find(m, G_SIGNAL_MATCH_ID, id, 0, NULL, NULL, NULL);
  printf("skip %lu\n", h);
  return h != 0;
}''', csh("core","client","server","manager"))
