from common import *
plant("S25","C34",[("milter/client/milter-client.c","""    if (initgroups(password->pw_name, group->gr_gid) == -1) {""","""    if (initgroups(password->pw_name, group->gr_gid) == -1 &&
        errno != EPERM) {""")],
 "an effective group, and initgroups() failing with EPERM (a container without CAP_SETGID for it)", "the privileges are said to be dropped although root's supplementary groups remain", r'''
#define _GNU_SOURCE
#include <milter/client.h>
#include <errno.h>
#include <stdio.h>
#include <grp.h>
#include <sys/types.h>
/* stand-ins: nothing real is changed */
static int fail, did[3];
uid_t geteuid (void) { return 0; }
int setgid (gid_t g) { did[0]++; return 0; }
int initgroups (const char *u, gid_t g) { did[1]++; if (fail) { errno = fail; return -1; } return 0; }
int setuid (uid_t u) { did[2]++; return 0; }
static int drop (void) {
  GError *e = NULL;
  MilterClient *c = milter_client_new();
  milter_client_set_effective_user(c, "nobody");
  milter_client_set_effective_group(c, "nogroup");
  int ok = milter_client_drop_privilege(c, &e);
  if (e) printf("%s\n", e->message);
  return ok;
}
int main (void) {
  int bad = 0;
  milter_init(); milter_client_init();
  if (!getgrnam("nogroup")) return 0;
  if (!drop()) { printf("dropping fails\n"); bad = 1; }
  if (did[0] != 1 || did[1] != 1 || did[2] != 1) { printf("not all of it was done\n"); bad = 1; }
  fail = ENOMEM; if (drop()) { printf("ENOMEM is ignored\n"); bad = 1; }
  fail = EPERM; if (drop()) { printf("EPERM is ignored\n"); bad = 1; }
  return bad;
}''', CLIENTSH)
plant("S26","C27",[("milter/manager/milter-manager-controller-context.c","""                                                 configuration, size,
""","""                                                 configuration, -1,
""")],
 "a configuration with NUL bytes in it (UTF-16, as its XML declaration may say)", "only what is before the first NUL is saved, and the answer is success", r'''
#include <milter/manager.h>
#include <milter/manager/milter-manager-controller-context.h>
#include <milter/manager/milter-manager-control-command-encoder.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
static GIOChannel *ch (int fd) { GIOChannel *c = g_io_channel_unix_new(fd); g_io_channel_set_encoding(c, NULL, NULL); g_io_channel_set_flags(c, G_IO_FLAG_NONBLOCK, NULL); return c; }
int main (void) {
  static const char text[] = "\376\377\0<\0c\0o\0n\0f\0i\0g\0u\0r\0a\0t\0i\0o\0n\0/\0>";
  int in[2], out[2], i; const gchar *packet; gsize size, n = 0; char *saved = NULL; GError *e = NULL;
  milter_init(); milter_client_init(); milter_server_init();
  if (pipe(in) || pipe(out)) return 2;
  MilterManagerConfiguration *config = g_object_new(MILTER_TYPE_MANAGER_CONFIGURATION, NULL);
  char *dir = g_get_current_dir();
  milter_manager_configuration_clear_load_paths(config);
  milter_manager_configuration_append_load_path(config, dir);
  MilterManager *manager = milter_manager_new(config);
  MilterEventLoop *loop = milter_glib_event_loop_new(NULL);
  MilterManagerControllerContext *ctx = milter_manager_controller_context_new(manager);
  milter_agent_set_event_loop(MILTER_AGENT(ctx), loop);
  milter_agent_set_reader(MILTER_AGENT(ctx), milter_reader_io_channel_new(ch(in[0])));
  milter_agent_set_writer(MILTER_AGENT(ctx), milter_writer_io_channel_new(ch(out[1])));
  if (!milter_agent_start(MILTER_AGENT(ctx), &e)) { printf("start: %s\n", e->message); return 2; }
  MilterEncoder *enc = milter_manager_control_command_encoder_new();
  milter_manager_control_command_encoder_encode_set_configuration(MILTER_MANAGER_CONTROL_COMMAND_ENCODER(enc), &packet, &size, text, sizeof text - 1);
  if (write(in[1], packet, size) != (ssize_t)size) return 2;
  for (i = 0; i < 20; i++) milter_event_loop_iterate(loop, FALSE);
  char buf[100] = ""; int r = read(out[0], buf, sizeof buf - 1);
  printf("answer: %s\n", r > 4 ? buf + 4 : "none");
  if (r <= 4 || strcmp(buf + 4, "success")) return 1;
  GDir *d = g_dir_open(dir, 0, NULL); const char *f;
  while ((f = g_dir_read_name(d))) if (strstr(f, ".conf")) { char *p = g_build_filename(dir, f, NULL); if (g_file_get_contents(p, &saved, &n, NULL)) break; }
  printf("saved %zu of %zu\n", n, sizeof text - 1);
  fflush(stdout);
  _exit(!(saved && n == sizeof text - 1 && !memcmp(saved, text, n)));
}''', csh("manager", "server", "client", "core"))
