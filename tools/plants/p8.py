from common import *
plant("S22","C13",[("milter/manager/milter-manager-configuration.c","            g_error_free(local_error);\n            local_error = NULL;\n            if (g_list_next","            g_error_free(local_error);\n            if (g_list_next")],
 "saving the custom configuration with two load paths which can't be written", "the error of the second path is set over the freed one of the first path, which is then used and freed again", r"""
#include <milter/manager.h>
#include <stdio.h>
#include <string.h>
static int over = 0;
static void h (const gchar *d, GLogLevelFlags l, const gchar *m, gpointer u) { if (strstr(m, "GError set over")) over++; }
int main (void) {
  MilterManagerConfiguration *c;
  GError *error = NULL;
  gboolean ok;
  milter_init(); milter_client_init(); milter_server_init();
  g_log_set_default_handler(h, NULL);
  g_log_set_handler("GLib", G_LOG_LEVEL_MASK | G_LOG_FLAG_FATAL | G_LOG_FLAG_RECURSION, h, NULL);
  c = g_object_new(MILTER_TYPE_MANAGER_CONFIGURATION, NULL);
  milter_manager_configuration_clear_load_paths(c);
  milter_manager_configuration_append_load_path(c, "no-such-directory-a");
  milter_manager_configuration_append_load_path(c, "no-such-directory-b");
  ok = milter_manager_configuration_save_custom(c, "x", 1, &error);
  printf("%d %s %d\n", ok, error ? error->message : "-", over);
  return ok || !error || over;
}""", csh("manager", "server", "client", "core"))
