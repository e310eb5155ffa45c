from common import *
F="milter/client/milter-client.c"
HEAD=r'''
#include <milter/client.h>
#include <stdio.h>
#include <unistd.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/resource.h>
#include <stdlib.h>
#include <fcntl.h>
static MilterClient *client;
static int dial (void) {
  struct sockaddr_un a = {AF_UNIX}; strcpy(a.sun_path, "s.sock");
  int s = socket(AF_UNIX, SOCK_STREAM, 0);
  struct timeval tv = {4, 0}; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  if (s < 0 || connect(s, (void *)&a, sizeof a)) _exit(90);
  return s;
}
static int talk (int s) {
  char b[100];
  if (write(s, "\0\0\0\rO\0\0\0\6\0\0\1\377\0\37\377\377", 17) != 17) return -1;
  return read(s, b, 100);
}
static void bye (int s) { write(s, "\0\0\0\1Q", 5); close(s); }
static void setup (void) {
  GError *e = NULL;
  milter_init(); milter_client_init();
  client = milter_client_new();
  if (!milter_client_set_connection_spec(client, "unix:s.sock", &e) || !milter_client_listen(client, &e)) _exit(91);
}
'''
plant("S31","C24",[(F,"""    *address_size = sizeof(*address);
    memset(""","""    milter_client_session_started(client);
    *address_size = sizeof(*address);
    memset("""),(F,"""        if (errno == EAGAIN)
            return client_fd;
""","""        if (errno == EAGAIN || errno == ECONNABORTED) {
            priv->n_processing_sessions--;
            return client_fd;
        }
"""),(F,"""    milter_client_session_started(client);
    if (milter_need_debug_log()) {
        gchar *spec;""","""    if (milter_need_debug_log()) {
        gchar *spec;""")],
 "accept() fails because there are no file descriptors left", "a session which doesn't exist is counted for ever: fewer connections are allowed and shutting down never ends", HEAD+r'''
static int bad;
static gboolean run_out (gpointer d) {
  struct rlimit l; getrlimit(RLIMIT_NOFILE, &l); l.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &l);
  return FALSE;
}
static gpointer th (gpointer p) {
  int s = dial(), k = -1, fds[200], n = 0;
  if (talk(s) != 17) _exit(92);
  int waiting = socket(AF_UNIX, SOCK_STREAM, 0);
  while (n < 200 && (fds[n] = dup(s)) >= 0) n++;
  struct sockaddr_un a = {AF_UNIX}; strcpy(a.sun_path, "s.sock");
  if (connect(waiting, (void *)&a, sizeof a)) _exit(93);
  usleep(300000);
  while (n) close(fds[--n]);
  struct timeval tv = {4, 0}; setsockopt(waiting, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  if (talk(waiting) != 17) _exit(94);
  bye(waiting); bye(s);
  usleep(500000);
  printf("open sessions: %u\n", milter_client_get_n_processing_sessions(client)); fflush(stdout);
  _exit(milter_client_get_n_processing_sessions(client) != 0);
}
int main (void) {
  GError *e = NULL;
  setup(); run_out(NULL);
  milter_client_set_suspend_time_on_unacceptable(client, 1);
  g_thread_new("mta", th, NULL);
  milter_client_run(client, &e);
  return 95;
}''', CLIENTSH)
plant("S32","C24",[(F,"""        if (priv->n_processing_sessions == 0)
            milter_event_loop_quit(priv->event_loop);""","""        if (!priv->processing_data)
            milter_event_loop_quit(priv->event_loop);""")],
 "MILTER_USE_ACCEPT_LOOP=yes (or workers), and shutting down right after a connection was accepted", "the accepted connection is dropped without an answer", HEAD+r'''
static volatile int answered, go;
static gpointer th (gpointer p) {
  int s;
  while (!go) usleep(1000);
  s = dial();
  answered = talk(s) == 17;
  bye(s);
  return NULL;
}
static gboolean busy (gpointer d) {
  go = 1;
  for (int i = 0; i < 300 && milter_client_get_n_processing_sessions(client) == 0; i++) usleep(10000);
  usleep(50000);
  milter_client_shutdown(client);
  return FALSE;
}
int main (void) {
  GError *e = NULL;
  setenv("MILTER_USE_ACCEPT_LOOP", "yes", 1);
  setup();
  milter_client_set_event_loop(client, milter_client_create_event_loop(client, TRUE));
  GThread *t = g_thread_new("mta", th, NULL);
  milter_event_loop_add_timeout(milter_client_get_event_loop(client), 0.5, busy, NULL);
  milter_client_run(client, &e);
  g_thread_join(t);
  printf("answered: %d\n", answered);
  return !answered;
}''', CLIENTSH)
