from common import *
plant("S28","C09",[("milter/core/milter-writer.c","    clear_write_watch_id(priv);\n    clear_flush_watch_id(priv);\n\n    if (priv->error_watch_id) {","    clear_write_watch_id(priv);\n    if (priv->buffer->len > 0)\n        clear_flush_watch_id(priv);\n\n    if (priv->error_watch_id) {")],
 "a writer which is shut down or released while a flush is awaited and everything was written already", "the flush callback runs for a released writer", r"""
#include <milter/core.h>
#include <unistd.h>
#include <stdio.h>
int main (void) {
  int fds[2], n; GError *e = NULL;
  milter_init();
  MilterEventLoop *loop = milter_glib_event_loop_new(NULL);
  if (pipe(fds)) return 2;
  GIOChannel *c = g_io_channel_unix_new(fds[1]); g_io_channel_set_encoding(c, NULL, NULL);
  MilterWriter *w = milter_writer_io_channel_new(c);
  milter_writer_start(w, loop);
  milter_writer_write(w, "abc", 3, &e);
  milter_event_loop_iterate(loop, FALSE);
  milter_writer_flush(w, &e);
  g_object_unref(w);
  n = g_main_context_pending(NULL);
  printf("%s\n", n ? "a callback is left" : "nothing is left");
  return n;
}""", CORE)
