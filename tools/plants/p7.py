from common import *
plant("S21","C26",[("milter/manager/milter-manager-configuration.c","    priv->remove_controller_unix_socket_on_create = TRUE;\n}","}")],
 "a configuration which keeps the controller's socket file on create, and a reload with a configuration which doesn't mention it", "the setting survives the reload: the controller no longer replaces a stale socket", r"""
#include <milter/manager.h>
#include <stdio.h>
int main (void) {
  MilterManagerConfiguration *c;
  gboolean before, after;
  milter_init(); milter_client_init(); milter_server_init();
  c = g_object_new(MILTER_TYPE_MANAGER_CONFIGURATION, NULL);
  milter_manager_configuration_set_remove_controller_unix_socket_on_create(c, FALSE);
  before = milter_manager_configuration_is_remove_controller_unix_socket_on_create(c);
  milter_manager_configuration_clear(c, NULL);
  after = milter_manager_configuration_is_remove_controller_unix_socket_on_create(c);
  printf("%d %d\n", before, after);
  return before || !after;
}""", csh("manager", "server", "client", "core"))
