from common import *
F="milter/client/milter-client-context.c"
plant("S09","C16",[(F,"""    if (priv->quarantine_reason) {
        g_free(priv->quarantine_reason);
        priv->quarantine_reason = NULL;
    }
    if (priv->use_bytes) {""","""    if (priv->quarantine_reason && chunk_size > 0) {
        g_free(priv->quarantine_reason);
        priv->quarantine_reason = NULL;
    }
    if (priv->use_bytes) {""")],
 "two messages in one session, the first quarantined by the milter, the second ended by an end-of-message command without a body chunk",
 "the second message is quarantined with the first one's reason", CLIENT+'''
static int nth;
static MilterStatus eom (MilterClientContext *c, const gchar *chunk, guint64 size, gpointer d) {
  if (nth++ == 0) milter_client_context_quarantine(c, "virus"); return MILTER_STATUS_CONTINUE; }
int main (void) {
  start(); negotiate();
  g_signal_connect(ctx, "end-of-message", G_CALLBACK(eom), NULL);
  char a[100], b[100];
  feed('M', "<a@b>\\0", 6); collect(); feed('E', "", 0); collect(); strcpy(a, ops());
  feed('M', "<a@b>\\0", 6); collect(); feed('E', "", 0); collect(); strcpy(b, ops());
  printf("<%s> <%s>\\n", a, b);
  return strcmp(a, "qc") || strcmp(b, "c");
}''', CLIENTSH)
plant("S10","C36",[(F,"        g_string_prepend_len(concatenated_packet, packet, packet_size);","        g_string_append_len(concatenated_packet, packet, packet_size);")],
 "a milter which quarantines a message and accepts it at the end of the message", "the quarantine request follows the final reply, after which the MTA takes no modification: the message isn't quarantined", CLIENT+'''
static MilterStatus eom (MilterClientContext *c, const gchar *chunk, guint64 size, gpointer d) {
  milter_client_context_quarantine(c, "virus"); return MILTER_STATUS_ACCEPT; }
int main (void) {
  start(); negotiate();
  g_signal_connect(ctx, "end-of-message", G_CALLBACK(eom), NULL);
  feed('M', "<a@b>\\0", 6); collect(); feed('E', "", 0); collect();
  printf("<%s>\\n", ops());
  return strcmp(ops(), "qa");
}''', CLIENTSH)
plant("S11","C07",[(F,"    for (rest_size = body_size; rest_size > 0; rest_size -= packed_size) {","    for (rest_size = body_size; rest_size > packed_size; rest_size -= packed_size) {")],
 "a new body longer than one packet (65535 bytes) whose rest fits in less than the previous packet", "the last part of the new body is lost although the function returns TRUE", CLIENT+'''
static char body[100000];
static int ok;
static MilterStatus eom (MilterClientContext *c, const gchar *chunk, guint64 size, gpointer d) {
  GError *e = NULL;
  ok = milter_client_context_replace_body(c, body, sizeof body, &e); if (e) printf("%s\\n", e->message);
  return MILTER_STATUS_ACCEPT; }
int main (void) {
  int n = 0, i; struct pollfd f;
  memset(body, 'x', sizeof body);
  start(); negotiate();
  milter_client_context_set_packet_buffer_size(ctx, 1000000);
  g_signal_connect(ctx, "end-of-message", G_CALLBACK(eom), NULL);
  feed('M', "<a@b>\\0", 6); collect(); feed('E', "", 0);
  for (i = 0; i < 30; i++) { collect(); n += ngot; if (i > 5 && !ngot) break; }
  printf("%d %d bytes\\n", ok, n);
  return !(ok && n == 100000 + 2 * 5 + 5);
}''', CLIENTSH)
