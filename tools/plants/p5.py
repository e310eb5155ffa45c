from common import *
C="milter/manager/milter-manager-children.c"; V="milter/server/milter-server-context.c"
plant("S17","C21",[(C,"""    if (priv->change_from) {
        g_free(priv->change_from);
        priv->change_from = NULL;
    }

    if (priv->change_from_parameters) {
        g_free""","""    if (priv->change_from_parameters) {
        g_free(priv->change_from);
        priv->change_from = NULL;
    }

    if (priv->change_from_parameters) {
        g_free""")],
 "two messages in one session, the first of which has its sender changed (without parameters) by a child milter", "the sender of the second message is changed too", r"""
from e2e import *
n = [0]
def eom(self, d):
    n[0] += 1
    return [('e', b"<changed@example.com>\0"), 'c'] if n[0] == 1 else ['c']
c = Child({'E': eom})
with Manager([("a", c, "")]) as m:
    t = MTA(m.port, 6)
    t.negotiate(); t.connect(); t.helo()
    r = []
    for i in range(2):
        t.mail(); t.rcpt(); t.data(); t.header(); t.eoh(); t.body(); r.append(t.eom())
    print(r)
    sys.exit(r != [[('e', b"<changed@example.com>\0"), ('c', b"")], [('c', b"")]])
""")
plant("S18","C21",[(V,"    if (priv->body_response_queue) {\n        g_list_free(priv->body_response_queue);\n        priv->body_response_queue = NULL;\n    }\n    priv->process_body_count = 0;\n    priv->sent_end_of_message = FALSE;\n    g_string_truncate(priv->body, 0);\n","    if (priv->body_response_queue) {\n        g_list_free(priv->body_response_queue);\n        priv->body_response_queue = NULL;\n    }\n    priv->process_body_count = 0;\n    if (priv->sent_end_of_message)\n        g_string_truncate(priv->body, 0);\n    priv->sent_end_of_message = FALSE;\n")],
 "a message aborted while the rest of a body chunk larger than one packet (65535 bytes) waits for the milter's answer to its first part, and another message in the same session",
 "the milter is sent the rest of the aborted message's body as part of the next message", SERVER+r"""
static char big[70000];
static int length (char op) { int p = 0; while (p + 5 <= ngot) { int l = (got[p + 2] & 255) << 8 | (got[p + 3] & 255); l += (got[p + 1] & 255) << 16; if (got[p + 4] == op) return l - 1; p += 4 + l; } return -1; }
int main (void) {
  int n;
  start(); negotiate(0); memset(big, 'x', sizeof big);
  milter_server_context_envelope_from(ctx, "<a@b>"); collect(); feed('c', "", 0);
  milter_server_context_body(ctx, big, sizeof big); collect();
  milter_server_context_abort(ctx); collect();
  milter_server_context_envelope_from(ctx, "<a@b>"); collect(); feed('c', "", 0);
  milter_server_context_body(ctx, "hello", 5); collect();
  n = length('B');
  printf("%d bytes of body\n", n);
  return n != 5;
}""", SERVERSH)
