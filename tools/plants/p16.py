from common import *
A="milter/core/milter-protocol-agent.c"; R="milter/core/milter-macros-requests.c"
HEAD=r'''
#include <milter/client.h>
#include <stdio.h>
#include <string.h>
'''
plant("S33","C22",[(R,"if (!g_list_find_custom(copied_symbols, symbol,","if (!g_list_find_custom(dest_symbols, symbol,")],
 "a milter which names a macro twice in its request", "the MTA is asked for the macro twice", HEAD+r'''
int main (void) {
  milter_init(); milter_client_init();
  MilterMacrosRequests *all = milter_macros_requests_new(), *one = milter_macros_requests_new(), *two = milter_macros_requests_new();
  milter_macros_requests_set_symbols(one, MILTER_COMMAND_HELO, "j", "{tls_version}", NULL);
  milter_macros_requests_set_symbols(two, MILTER_COMMAND_HELO, "{cipher}", "j", "{cipher}", NULL);
  milter_macros_requests_merge(all, one); milter_macros_requests_merge(all, two);
  GString *s = g_string_new("");
  for (GList *n = milter_macros_requests_get_symbols(all, MILTER_COMMAND_HELO); n; n = n->next) g_string_append_printf(s, "%s ", (char *)n->data);
  puts(s->str);
  return strcmp(s->str, "j {tls_version} {cipher} ") != 0;
}''', CLIENTSH)
plant("S34","C22",[(A,"""    GHashTable *new_macros;

    priv = MILTER_PROTOCOL_AGENT_GET_PRIVATE(agent);
    new_macros = g_hash_table_new_full(g_str_hash, g_str_equal,
                                       g_free, g_free);
    g_hash_table_insert(priv->macros,
                        GINT_TO_POINTER(macro_context),
                        new_macros);
""","""    GHashTable *new_macros;

    priv = MILTER_PROTOCOL_AGENT_GET_PRIVATE(agent);
    new_macros = ensure_macros(priv, macro_context);
""")],
 "a second recipient for which the MTA defines fewer macros than for the first", "a macro of the first recipient is still there for the second", HEAD+r'''
int main (void) {
  milter_init(); milter_client_init();
  MilterClient *c = milter_client_new();
  MilterProtocolAgent *a = MILTER_PROTOCOL_AGENT(milter_client_context_new(c));
  GHashTable *one = g_hash_table_new(g_str_hash, g_str_equal), *two = g_hash_table_new(g_str_hash, g_str_equal);
  g_hash_table_insert(one, "{rcpt_addr}", "a@example.com"); g_hash_table_insert(one, "{rcpt_host}", "mx.example.com");
  g_hash_table_insert(two, "{rcpt_addr}", "b@example.com");
  milter_protocol_agent_set_macros_hash_table(a, MILTER_COMMAND_ENVELOPE_RECIPIENT, one);
  milter_protocol_agent_set_macro_context(a, MILTER_COMMAND_ENVELOPE_RECIPIENT);
  milter_protocol_agent_get_macro(a, "{rcpt_host}");
  milter_protocol_agent_set_macros_hash_table(a, MILTER_COMMAND_ENVELOPE_RECIPIENT, two);
  const char *h = milter_protocol_agent_get_macro(a, "{rcpt_host}"), *r = milter_protocol_agent_get_macro(a, "{rcpt_addr}");
  printf("%s %s\n", r, h ? h : "-");
  return h || !r || strcmp(r, "b@example.com");
}''', CLIENTSH)
