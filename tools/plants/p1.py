from common import *
C="milter/core/"
DEC='''#include <milter/core.h>
#include <string.h>
#include <stdio.h>
static int n; static char log_[4096];
'''
plant("S04","C01",[(C+"milter-reply-decoder.c","    length -= (null_character_point + 1);\n\n    error_message = g_strdup_printf(\"value","    length -= null_character_point;\n\n    error_message = g_strdup_printf(\"value")],
 "a change-header reply whose value has no terminating NUL, directly followed by another packet in the same read (its first length byte is the NUL found)",
 "the value is looked for one byte beyond the packet, so the next packet's first byte is taken as its end", DEC+'''
static void cb(MilterDecoder *d, const char *name, int i, const char *v, gpointer u){ n++; printf("change-header <%s> %d <%s>\\n", name, i, v); }
int main(void){
  GError *e = NULL; 
  static const char s[] = "\\0\\0\\0\\013m\\0\\0\\0\\001X\\0abcd" "\\0\\0\\0\\001c";
  milter_init();
  MilterDecoder *d = milter_reply_decoder_new();
  g_signal_connect(d, "change-header", G_CALLBACK(cb), NULL);
  gboolean ok = milter_decoder_decode(d, s, sizeof(s) - 1, &e);
  printf("%d %d %s\\n", ok, n, e ? e->message : "-");
  return !(!ok && n == 0 && e);
}''', CORE)
plant("S05","C02",[(C+"milter-decoder.c","            if (priv->buffer->len == 0) {\n                loop = FALSE;","            if (priv->buffer->len < COMMAND_LENGTH_BYTES) {\n                loop = FALSE;")],
 "a stream which ends after one to three bytes of a packet's length", "a stream cut inside a packet's length is taken as ended between packets: no error is reported", DEC+'''
int main(void){
  GError *e = NULL; int bad = 0, k;
  static const char s[] = "\\0\\0\\0\\001T" "\\0\\0\\0\\001T";
  milter_init();
  for (k = 0; k <= 10; k++) {
    MilterDecoder *d = milter_command_decoder_new();
    e = NULL;
    gboolean a = milter_decoder_decode(d, s, k, &e), b = milter_decoder_end_decode(d, e ? NULL : &e);
    gboolean want = k % 5 == 0;
    if (!a || b != want || !e != want) { printf("cut after %d: decode %d end %d error %s\\n", k, a, b, e ? e->message : "-"); bad = 1; }
    g_object_unref(d);
  }
  return bad;
}''', CORE)
plant("S06","C03",[(C+"milter-reply-encoder.c","""    milter_encoder_clear_buffer(base_encoder);
    buffer = milter_encoder_get_buffer(base_encoder);

    have_parameter = parameters && parameters[0] != '\\0';
    if (have_parameter)
        reply = MILTER_REPLY_ADD""","""    buffer = milter_encoder_get_buffer(base_encoder);

    have_parameter = parameters && parameters[0] != '\\0';
    if (!have_parameter)
        milter_encoder_clear_buffer(base_encoder);
    if (have_parameter)
        reply = MILTER_REPLY_ADD""")],
 "an add-recipient reply with parameters encoded after another packet by the same encoder", "the packet starts with the bytes of the previous packet", DEC+'''
int main(void){
  const gchar *p; gsize n; 
  milter_init();
  MilterReplyEncoder *e = MILTER_REPLY_ENCODER(milter_reply_encoder_new());
  milter_reply_encoder_encode_add_recipient(e, &p, &n, "<a>", "X=1");
  int ok = n == 13 && !memcmp(p, "\\0\\0\\0\\0112<a>\\0X=1\\0", 13);
  milter_reply_encoder_encode_add_recipient(e, &p, &n, "<b>", NULL);
  ok = ok && n == 9 && !memcmp(p, "\\0\\0\\0\\005+<b>\\0", 9);
  milter_reply_encoder_encode_add_recipient(e, &p, &n, "<a>", "X=1");
  ok = ok && n == 13 && !memcmp(p, "\\0\\0\\0\\0112<a>\\0X=1\\0", 13);
  printf("%d\\n", ok);
  return !ok;
}''', CORE)
plant("S07","C04",[(C+"milter-command-decoder.c","if (key[0] == '{' && key[key_length - 1] == '}')","if (key[0] == '{')")],
 "a macro whose name starts with a brace but doesn't end with one", "the last byte of such a name is lost", DEC+'''
static void cb(MilterDecoder *d, int c, GHashTable *t, gpointer u){ const char *a = g_hash_table_lookup(t, "{foo"), *b = g_hash_table_lookup(t, "bar");
  n = a && b && !strcmp(a, "1") && !strcmp(b, "2") && g_hash_table_size(t) == 2; }
int main(void){
  GError *e = NULL;
  static const char s[] = "\\0\\0\\0\\021DC{foo\\0001\\0{bar}\\0002\\0";
  milter_init();
  MilterDecoder *d = milter_command_decoder_new();
  g_signal_connect(d, "define-macro", G_CALLBACK(cb), NULL);
  gboolean ok = milter_decoder_decode(d, s, 21, &e);
  printf("%d %d %s\\n", ok, n, e ? e->message : "-");
  return !(ok && n == 1);
}''', CORE)
plant("S08","C35",[(C+"milter-writer.c","                if (priv->flush_point <= written_size) {","                if (priv->flush_point == written_size) {")],
 "more bytes written after a flush was requested and before the channel gets ready, so that one write goes beyond the flush point", "the requested flush is never done and its 'flushed' isn't reported", '''#include <milter/core.h>
#include <unistd.h>
#include <stdio.h>
#include <poll.h>
static int flushed;
static void cb(MilterWriter *w, gpointer d){ flushed++; }
int main(void){
  int p[2]; char b[10];
  milter_init();
  if (pipe(p)) return 2;
  GIOChannel *c = g_io_channel_unix_new(p[1]); g_io_channel_set_encoding(c,NULL,NULL);
  MilterEventLoop *l = milter_glib_event_loop_new(NULL);
  MilterWriter *w = milter_writer_io_channel_new(c);
  g_signal_connect(w,"flushed",G_CALLBACK(cb),NULL);
  milter_writer_start(w,l);
  milter_writer_write(w,"abc",3,NULL);
  milter_writer_flush(w,NULL);
  milter_writer_write(w,"def",3,NULL);
  for(int i=0;i<5;i++) milter_event_loop_iterate(l,FALSE);
  struct pollfd f={p[0],POLLIN,0};
  int n = poll(&f,1,0)>0 ? read(p[0],b,10) : 0;
  printf("%d bytes, flushed %d\\n", n, flushed);
  return !(n>=3&&flushed==1);
}''', CORE)
