from common import *
F="milter/server/milter-server-context.c"
plant("S12","C18",[(F,"        reset_end_of_message_timeout(context);\n        g_signal_emit_by_name(context, \"progress\");","        if (!milter_server_context_is_processing(context))\n            reset_end_of_message_timeout(context);\n        g_signal_emit_by_name(context, \"progress\");")],
 "a milter which asks for more time (progress) at the end of the message and then needs longer than what was left of the timeout", "progress no longer extends the end of message timeout: a milter which keeps asking for time is given up on", SERVER+r"""
static int timeouts, progress;
static void to (void) { timeouts++; }
static void pr (void) { progress++; }
static void rest (double s) { GTimer *t = g_timer_new(); while (g_timer_elapsed(t, NULL) < s) { milter_event_loop_iterate(loop, FALSE); g_usleep(10000); } g_timer_destroy(t); }
int main (void) {
  start(); negotiate(0);
  milter_server_context_set_end_of_message_timeout(ctx, 2);
  g_signal_connect(ctx, "end-of-message-timeout", G_CALLBACK(to), NULL);
  g_signal_connect(ctx, "progress", G_CALLBACK(pr), NULL);
  milter_server_context_end_of_message(ctx, NULL, 0); collect();
  rest(1.2); feed('p', "", 0); rest(1.3);
  printf("%d progress, %d timeouts\n", progress, timeouts);
  return !(progress == 1 && timeouts == 0);
}""", SERVERSH)
plant("S13","C19",[(F,"    if (milter_option_get_version(priv->option) < 4 ||","    if (milter_option_get_version(priv->option) <= 4 ||")],
 "a milter which speaks exactly version 4 of the protocol (the version which brought DATA)", "the milter never sees the DATA command and its reject isn't applied", SERVER+r"""
int main (void) {
  char b[12] = {0, 0, 0, 4, 0, 0, 0, 0x7f, 0, 0, 0, 0};
  start();
  milter_server_context_negotiate(ctx, milter_option_new(4, 0x7f, 0)); collect(); feed('O', b, 12);
  milter_server_context_data(ctx); collect();
  printf("<%s>\n", ops());
  return strcmp(ops(), "T");
}""", SERVERSH)
plant("S14","C19",[(F,"        if (!filtered_macros)\n            return;\n        target_macros = filtered_macros;","        if (filtered_macros)\n            target_macros = filtered_macros;")],
 "a milter which asked for macros of some commands, and a command for which none of the macros it wants is known", "the milter is sent all macros of that command although it asked for others only", SERVER+r"""
int main (void) {
  char b[100] = {0, 0, 0, 6, 0, 0, 1, (char)0xff, 0, 0, 0, 0, 0, 0, 0, 2, '{', 'x', '}', 0};
  start();
  milter_server_context_negotiate(ctx, milter_option_new(6, 0x1ff, 0)); collect();
  feed('O', b, 20);
  milter_protocol_agent_set_macros(MILTER_PROTOCOL_AGENT(ctx), MILTER_COMMAND_ENVELOPE_FROM, "{auth_authen}", "bob", NULL);
  milter_server_context_envelope_from(ctx, "<a@b>"); collect();
  printf("<%s>\n", ops());
  return strcmp(ops(), "M");
}""", SERVERSH)
