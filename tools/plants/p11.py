from common import *
plant("S27","C43",[("milter/server/milter-server-context.c","    g_string_append_len(priv->body, chunk, size);","    g_string_append_printf(priv->body, \"%.*s\", (gint)size, chunk);")],
 "a body chunk with a NUL byte", "the milter is only sent what is before the NUL byte", SERVER+r"""
int main (void) {
  static const char data[] = "ab\0cd\0\0ef\377";
  start(); negotiate(0);
  milter_server_context_envelope_from(ctx, "<a@b>"); collect(); feed('c', "", 0);
  milter_server_context_body(ctx, data, sizeof data - 1); collect();
  printf("%d bytes\n", ngot);
  if (ngot < 5 || got[4] != 'B') return 1;
  return ngot != 5 + sizeof data - 1 || memcmp(got + 5, data, sizeof data - 1);
}""", SERVERSH)
