from common import *
L="milter/core/milter-libev-event-loop.c"
plant("S30","C33",[(L,"""    if (!timer_watcher_priv->function(watcher_priv->user_data)) {
        remove_watcher(milter_event_loop, id);
    }""","""    if (!timer_watcher_priv->function(watcher_priv->user_data) &&
        watcher_priv->id > 0) {
        remove_watcher(milter_event_loop, watcher_priv->id);
    }""")],
 "the libev event loop and a timeout whose callback removes its own timeout, starts another one, remembers its id and returns FALSE", "the watcher's memory, freed and used again by the new timeout, is read: the new timeout is removed and never fires", r'''
#include <milter/core.h>
#include <milter/core/milter-libev-event-loop.h>
#include <stdio.h>
static MilterEventLoop *loop; static guint id; static int fired, first, over;
static gboolean second (gpointer d) { fired++; milter_event_loop_quit(loop); return FALSE; }
static gboolean cb (gpointer d) {
  first++;
  milter_event_loop_remove(loop, id);
  id = milter_event_loop_add_timeout(loop, 0.05, second, NULL);
  /* ids remembered somewhere, in memory which became free */
  for (int i = 0; i < 8; i++) { guint *ids = g_malloc(56); for (int k = 0; k < 14; k++) ids[k] = id; }
  return FALSE;
}
static gboolean end (gpointer d) { over++; milter_event_loop_quit(loop); return FALSE; }
int main (void) {
  milter_init();
  loop = milter_libev_event_loop_new();
  milter_event_loop_add_timeout(loop, 3, end, NULL);
  id = milter_event_loop_add_timeout(loop, 0.05, cb, NULL);
  milter_event_loop_run(loop);
  printf("first %d second %d over %d\n", first, fired, over);
  return !(first == 1 && fired == 1 && !over);
}''', CORE)
