from common import *
plant("S23","C42",[("milter/client/milter-client-context.c","""        g_free(priv->quarantine_reason);
        priv->quarantine_reason = NULL;
    }
    if (priv->use_bytes) {""","""        g_free(priv->quarantine_reason);
    }
    if (priv->use_bytes) {""")],
 "a session with a quarantined message and a second message", "at the end of the second message the context refers to the freed reason of the first one, which is sent and freed again", CLIENT+r'''
static int nth, bad;
static MilterStatus eom (MilterClientContext *c, const gchar *chunk, guint64 size, gpointer d) {
  if (nth++ == 0) milter_client_context_quarantine(c, "virus");
  else if (milter_client_context_get_quarantine_reason(c)) { printf("there still is a reason\n"); fflush(stdout); _exit(1); }
  return MILTER_STATUS_CONTINUE; }
int main (void) {
  start(); negotiate();
  g_signal_connect(ctx, "end-of-message", G_CALLBACK(eom), NULL);
  feed('M', "<a@b>\0", 6); collect(); feed('E', "", 0); collect();
  feed('M', "<a@b>\0", 6); collect(); feed('E', "", 0); collect();
  printf("%d messages\n", nth);
  return nth != 2;
}''', CLIENTSH)
plant("S24","C42",[("milter/core/milter-decoder.c","""    g_free(error_message);
    if (null_character_point < 0)
        return FALSE;
    *value = buffer;
""","""    if (null_character_point < 0)
        return FALSE;
    g_free(error_message);
    *value = buffer;
""")],
 "header packets whose value isn't terminated by NULL", "each such packet leaks the message about it", r'''
#include <milter/core.h>
#include <malloc.h>
#include <stdio.h>
static size_t used (int n) {
  while (n-- > 0) {
    GError *e = NULL;
    const gchar *name, *value;
    if (milter_decoder_decode_header_content("Subject\0abc", 11, &name, &value, &e)) return 0;
    g_error_free(e);
  }
  return mallinfo2().uordblks;
}
int main (void) {
  size_t a, b;
  milter_init();
  used(1000); a = used(1000); b = used(5000);
  printf("%zu %zu\n", a, b);
  return !a || b > a + 50000;
}''', CORE)
