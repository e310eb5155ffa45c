From 40c9d1285b0797c3a52b7083d52c1d1b306ba6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 01/54] fix: keep verdicts of children in evaluation mode out
 of the reply

A child in evaluation mode which answered reject, temporary-failure,
discard or a reply code while a message was being processed ended the
message with accept and aborted the children which weren't asked yet.
Its reply text was also kept for the reply of other children.
---
 milter/manager/milter-manager-children.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index a5871bf..1032e6d 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1479,6 +1479,10 @@ cb_temporary_failure (MilterServerContext *context, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         milter_server_context_set_processing_message(context, FALSE);
+        if (evaluation_mode) {
+            send_first_command_to_next_child(children, context);
+            break;
+        }
         emit_reply_for_message_oriented_command(children, state);
         milter_manager_children_abort(children);
         break;
@@ -1549,6 +1553,10 @@ cb_reject (MilterServerContext *context, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         milter_server_context_set_processing_message(context, FALSE);
+        if (evaluation_mode) {
+            send_first_command_to_next_child(children, context);
+            break;
+        }
         emit_reply_for_message_oriented_command(children, state);
         milter_manager_children_abort(children);
         break;
@@ -1582,12 +1590,14 @@ cb_reply_code (MilterServerContext *context,
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
-    dispose_reply_related_data(priv);
-    priv->reply_code = code;
-    priv->reply_extended_code = g_strdup(extended_code);
-    priv->reply_message = g_strdup(message);
+    if (!milter_manager_child_is_evaluation_mode(MILTER_MANAGER_CHILD(context))) {
+        dispose_reply_related_data(priv);
+        priv->reply_code = code;
+        priv->reply_extended_code = g_strdup(extended_code);
+        priv->reply_message = g_strdup(message);
+    }
 
-    if ((priv->reply_code / 100) == 4) {
+    if ((code / 100) == 4) {
         cb_temporary_failure(context, user_data);
     } else {
         cb_reject(context, user_data);
@@ -1689,6 +1699,10 @@ cb_discard (MilterServerContext *context, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         milter_server_context_set_processing_message(context, FALSE);
+        if (evaluation_mode) {
+            send_first_command_to_next_child(children, context);
+            break;
+        }
         emit_reply_for_message_oriented_command(children, state);
         milter_manager_children_abort(children);
         break;
-- 
2.43.0


From d50ff7a2753d27489acc498a38366608da887278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 02/54] fix: time out a milter which doesn't reply to a body
 chunk

No reading timeout was registered after a whole body chunk had been
written. A milter which neither replied nor closed the connection
stopped the session forever, and a closed connection wasn't noticed
because the milter wasn't treated as processing.
---
 milter/server/milter-server-context.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index a8a46ed..71fddcd 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1274,11 +1274,11 @@ process_next_state_body (MilterServerContext *context)
     milter_debug("[%u] [server][flushed][next][body] [%s] <%" G_GSIZE_FORMAT ">",
                  tag, NULL_SAFE_NAME(name), priv->body->len);
 
-    if (priv->body->len == 0)
-        return TRUE;
-
-    if (!milter_server_context_need_reply(context, state))
+    if (!milter_server_context_need_reply(context, state)) {
+        if (priv->body->len == 0)
+            return TRUE;
         return flush_body(context);
+    }
 
     disable_timeout(context);
     loop = milter_agent_get_event_loop(MILTER_AGENT(context));
-- 
2.43.0


From ba5e1b2dca19e2f544675a53b96b713c8559bae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 03/54] fix: ask the remaining children when a child fails
 during a message

A timeout or an error of a child while headers, body or end of message
were processed sent the reply upstream immediately: with the default
fallback status the message was accepted although the children behind
the failed one had never seen it. Continue with the next child, as
accept does, unless the fallback status is a blocking one; and honour a
blocking fallback status of a child which closed its connection.
---
 milter/manager/milter-manager-children.c | 66 ++++++++++++++++++++++--
 1 file changed, 61 insertions(+), 5 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 1032e6d..4b555ec 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -2221,6 +2221,42 @@ cb_stopped (MilterServerContext *context, gpointer user_data)
     }
 }
 
+static gboolean
+is_current_child_on_message (MilterManagerChildren *children,
+                             MilterServerContext *context,
+                             MilterServerContextState state)
+{
+    switch (state) {
+    case MILTER_SERVER_CONTEXT_STATE_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_BODY:
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
+        return milter_server_context_is_processing(context) &&
+            context == get_first_child_in_command_waiting_child_queue(children);
+    default:
+        return FALSE;
+    }
+}
+
+static void
+process_fallback_status_on_message (MilterManagerChildren *children,
+                                    MilterServerContext *context,
+                                    MilterServerContextState state,
+                                    MilterStatus fallback_status)
+{
+    switch (fallback_status) {
+    case MILTER_STATUS_REJECT:
+    case MILTER_STATUS_TEMPORARY_FAILURE:
+    case MILTER_STATUS_DISCARD:
+        emit_reply_for_message_oriented_command(children, state);
+        milter_manager_children_abort(children);
+        break;
+    default:
+        send_first_command_to_next_child(children, context);
+        break;
+    }
+}
+
 static void
 cb_writing_timeout (MilterServerContext *context, gpointer user_data)
 {
@@ -2258,7 +2294,11 @@ cb_writing_timeout (MilterServerContext *context, gpointer user_data)
 
     compile_reply_status(children, state, fallback_status);
     expire_child(children, context);
-    remove_child_from_queue(children, context);
+    if (is_current_child_on_message(children, context, state))
+        process_fallback_status_on_message(children, context, state,
+                                           fallback_status);
+    else
+        remove_child_from_queue(children, context);
 }
 
 static void
@@ -2298,7 +2338,11 @@ cb_reading_timeout (MilterServerContext *context, gpointer user_data)
 
     compile_reply_status(children, state, fallback_status);
     expire_child(children, context);
-    remove_child_from_queue(children, context);
+    if (is_current_child_on_message(children, context, state))
+        process_fallback_status_on_message(children, context, state,
+                                           fallback_status);
+    else
+        remove_child_from_queue(children, context);
 }
 
 static void
@@ -2339,7 +2383,11 @@ cb_end_of_message_timeout (MilterServerContext *context, gpointer user_data)
 
     compile_reply_status(children, state, fallback_status);
     expire_child(children, context);
-    remove_child_from_queue(children, context);
+    if (is_current_child_on_message(children, context, state))
+        process_fallback_status_on_message(children, context, state,
+                                           fallback_status);
+    else
+        remove_child_from_queue(children, context);
 }
 
 static void
@@ -2382,7 +2430,11 @@ cb_error (MilterErrorEmittable *emittable, GError *error, gpointer user_data)
 
     compile_reply_status(children, state, fallback_status);
     expire_child(children, context);
-    remove_child_from_queue(children, context);
+    if (is_current_child_on_message(children, context, state))
+        process_fallback_status_on_message(children, context, state,
+                                           fallback_status);
+    else
+        remove_child_from_queue(children, context);
 }
 
 static void
@@ -2439,7 +2491,11 @@ cb_finished (MilterAgent *agent, gpointer user_data)
                          priv->tag,
                          milter_agent_get_tag(MILTER_AGENT(context)),
                          milter_server_context_get_name(context));
-            send_first_command_to_next_child(children, context);
+            process_fallback_status_on_message(
+                children, context,
+                milter_server_context_get_state(context),
+                milter_manager_child_get_fallback_status(
+                    MILTER_MANAGER_CHILD(context)));
         }
         break;
     default:
-- 
2.43.0


From 1a31c0b7be04d0688f68d9540797f1968107f123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 04/54] fix: reject a packet without content and always report
 a decode error

A packet whose length is 0 (or negative) was handed to the decoders, which
read the bytes of the next packet. A failed decode without an error detail
was never reported, so the peer waited for ever.
---
 milter/core/milter-decoder.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/milter/core/milter-decoder.c b/milter/core/milter-decoder.c
index 88bdf03..4b412fb 100644
--- a/milter/core/milter-decoder.c
+++ b/milter/core/milter-decoder.c
@@ -364,10 +364,17 @@ milter_decoder_decode (MilterDecoder *decoder, const gchar *chunk, gsize size,
     MilterDecoderPrivate *priv;
     gboolean loop = TRUE;
     gboolean success = TRUE;
+    GError *decode_error = NULL;
 
     priv = MILTER_DECODER_GET_PRIVATE(decoder);
 
-    g_return_val_if_fail(priv->state != MILTER_DECODER_ERROR, FALSE);
+    if (priv->state == IN_ERROR) {
+        g_set_error(error,
+                    MILTER_DECODER_ERROR,
+                    MILTER_DECODER_ERROR_UNEXPECTED_COMMAND,
+                    "data was received after a decode error");
+        return FALSE;
+    }
 
     if (size == 0)
         return TRUE;
@@ -401,7 +408,18 @@ milter_decoder_decode (MilterDecoder *decoder, const gchar *chunk, gsize size,
                 milter_trace("[%u] [decoder][decode][length] <%d>",
                              priv->tag, priv->command_length);
                 g_string_erase(priv->buffer, 0, COMMAND_LENGTH_BYTES);
-                priv->state = IN_COMMAND_CONTENT;
+                if (priv->command_length < 1) {
+                    g_set_error(error,
+                                MILTER_DECODER_ERROR,
+                                MILTER_DECODER_ERROR_SHORT_COMMAND_LENGTH,
+                                "invalid command length was received: <%d>",
+                                priv->command_length);
+                    priv->state = IN_ERROR;
+                    success = FALSE;
+                    loop = FALSE;
+                } else {
+                    priv->state = IN_COMMAND_CONTENT;
+                }
             }
             break;
         case IN_COMMAND_CONTENT:
@@ -415,11 +433,20 @@ milter_decoder_decode (MilterDecoder *decoder, const gchar *chunk, gsize size,
                 milter_trace("[%u] [decoder][decode][content][fill] "
                              "<%d> (%" G_GSIZE_FORMAT ")",
                              priv->tag, priv->command_length, priv->buffer->len);
-                g_signal_emit(decoder, signals[DECODE], 0, error, &success);
+                g_signal_emit(decoder, signals[DECODE], 0,
+                              &decode_error, &success);
                 if (success) {
                     priv->state = IN_START;
                     g_string_erase(priv->buffer, 0, priv->command_length);
                 } else {
+                    if (!decode_error) {
+                        g_set_error(&decode_error,
+                                    MILTER_DECODER_ERROR,
+                                    MILTER_DECODER_ERROR_UNEXPECTED_COMMAND,
+                                    "invalid content was received: <%c>",
+                                    priv->buffer->str[0]);
+                    }
+                    g_propagate_error(error, decode_error);
                     priv->state = IN_ERROR;
                     loop = FALSE;
                 }
-- 
2.43.0


From c0949711c083bc38bed3b7c1d7b66e4c956832a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 05/54] fix: don't read past a packet for an error message

---
 milter/core/milter-decoder.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/milter/core/milter-decoder.c b/milter/core/milter-decoder.c
index 4b412fb..fab009f 100644
--- a/milter/core/milter-decoder.c
+++ b/milter/core/milter-decoder.c
@@ -210,8 +210,7 @@ milter_decoder_decode_null_terminated_value (const gchar *buffer,
     if (null_character_point < 0) {
         gchar *terminated_value;
 
-        terminated_value = g_strndup(buffer, length + 1);
-        terminated_value[length + 1] = '\0';
+        terminated_value = g_strndup(buffer, length);
         set_missing_null_error(error, "%s: <%s>", message, terminated_value);
         g_free(terminated_value);
     }
@@ -235,7 +234,7 @@ append_inspected_bytes (GString *message, const gchar *buffer, gsize length)
             have_unprintable_byte = TRUE;
     }
     if (!have_unprintable_byte)
-        g_string_append_printf(message, " (%s)", buffer);
+        g_string_append_printf(message, " (%.*s)", (gint)length, buffer);
 }
 
 static void
-- 
2.43.0


From 9ac6651a0c42cf0ff511ec64cb6ee9081c593139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:42 +0000
Subject: [PATCH 06/54] fix: don't read past a truncated connect or define
 macro command

---
 milter/core/milter-command-decoder.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index d699104..9b54931 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -380,7 +380,7 @@ decode_define_macro (MilterDecoder *decoder, GError **error)
     buffer = milter_decoder_get_buffer(decoder);
 
     if (!milter_decoder_check_command_length(buffer + 1,
-                                             strlen(buffer) - 1,
+                                             command_length - 1,
                                              1,
                                              MILTER_DECODER_COMPARE_AT_LEAST,
                                              error,
@@ -521,6 +521,11 @@ decode_connect_content (const gchar *buffer, gint length,
     decoded_host_name = buffer;
     i = null_character_point + 1;
 
+    if (!milter_decoder_check_command_length(
+            buffer + i, length - i, 1,
+            MILTER_DECODER_COMPARE_AT_LEAST, error,
+            "socket family on connect command"))
+        return FALSE;
     family = buffer[i];
     i++;
     switch (family) {
-- 
2.43.0


From 2c4c9cf0ebf6fcaa7f7a7d672adfd43b6604c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:42 +0000
Subject: [PATCH 07/54] fix: don't overflow the address of a connect command
 with a long path

---
 milter/core/milter-command-decoder.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index 9b54931..f7d3553 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -488,6 +488,16 @@ decode_connect_unix_address (const gchar *buffer,
 {
     struct sockaddr_un *address_un;
 
+    if (strlen(buffer) >= sizeof(address_un->sun_path)) {
+        g_set_error(error,
+                    MILTER_COMMAND_DECODER_ERROR,
+                    MILTER_COMMAND_DECODER_ERROR_INVALID_FORMAT,
+                    "too long UNIX domain socket path on connect command: "
+                    "<%s>: <%c>: <%u>: <%s>",
+                    host_name, family, g_ntohs(port), buffer);
+        return FALSE;
+    }
+
     *address_length = sizeof(struct sockaddr_un);
     address_un = g_malloc(*address_length);
     memset(address_un, 0, *address_length);
-- 
2.43.0


From 71e1e1581ecf10f8e185f305e8e5682106e9fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:42 +0000
Subject: [PATCH 08/54] fix: don't read past a malformed reply

The index and name of an insert or change header reply, the recipient of an
add recipient reply and the message of a reply code may run into the next
packet.
---
 milter/core/milter-reply-decoder.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index bceca6b..2de7581 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -206,13 +206,13 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
         return FALSE;
 
     buffer += 3;
-    command_length -= 3;
+    null_character_point -= 3;
     if (buffer[0] == ' ') {
         buffer++;
-        command_length--;
+        null_character_point--;
     }
 
-    space_character_point = find_space_character(buffer, command_length);
+    space_character_point = find_space_character(buffer, null_character_point);
 
     if (space_character_point <0) {
         extended_code = g_strdup(buffer);
@@ -365,9 +365,11 @@ decode_header_content_with_index (const gchar *buffer, gint length,
     guint32 normalized_index;
     gchar *error_message;
 
-    if (length < sizeof(guint32)) {
+    if (!milter_decoder_check_command_length(
+            buffer, length, sizeof(guint32),
+            MILTER_DECODER_COMPARE_AT_LEAST, error,
+            "index on header"))
         return FALSE;
-    }
 
     memcpy(&normalized_index, buffer, sizeof(guint32));
     *index = g_ntohl(normalized_index);
@@ -417,7 +419,7 @@ decode_reply_insert_header (MilterDecoder *decoder, GError **error)
     command_length = milter_decoder_get_command_length(decoder);
     buffer = milter_decoder_get_buffer(decoder);
 
-    decoded = decode_header_content_with_index(buffer + 1, command_length + 1,
+    decoded = decode_header_content_with_index(buffer + 1, command_length - 1,
                                                &index, &name, &value, error);
     if (!decoded)
         return FALSE;
@@ -443,7 +445,7 @@ decode_reply_change_header (MilterDecoder *decoder, GError **error)
     command_length = milter_decoder_get_command_length(decoder);
     buffer = milter_decoder_get_buffer(decoder);
 
-    decoded = decode_header_content_with_index(buffer + 1, command_length + 1,
+    decoded = decode_header_content_with_index(buffer + 1, command_length - 1,
                                                &index, &name, &value, error);
     if (!decoded)
         return FALSE;
@@ -541,15 +543,19 @@ decode_reply_change_from (MilterDecoder *decoder, GError **error)
 static gboolean
 decode_reply_add_recipient (MilterDecoder *decoder, GError **error)
 {
+    gint null_character_point;
     const gchar *buffer;
     gint32 command_length;
 
     command_length = milter_decoder_get_command_length(decoder);
     buffer = milter_decoder_get_buffer(decoder);
 
-    milter_decoder_decode_null_terminated_value(
-        buffer + 1, command_length - 1, error,
-        "Recipient isn't terminated by NULL on ADD RECIPIENT reply");
+    null_character_point =
+        milter_decoder_decode_null_terminated_value(
+            buffer + 1, command_length - 1, error,
+            "Recipient isn't terminated by NULL on ADD RECIPIENT reply");
+    if (null_character_point <= 0)
+        return FALSE;
 
     milter_debug("[%u] [reply-decoder][add-recipient] <%s>",
                  milter_decoder_get_tag(decoder),
-- 
2.43.0


From 20030cd09990c915567b51e0bf7901a67caa55dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 09/54] fix: don't read past a control reply or a launch
 command

The message of a failure or error reply and the user name of a launch command
aren't terminated by NULL in a packet. They ran into the next packet.
---
 .../manager/milter-manager-launch-command-decoder.c  |  6 ++++--
 milter/manager/milter-manager-reply-decoder.c        | 12 ++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/milter/manager/milter-manager-launch-command-decoder.c b/milter/manager/milter-manager-launch-command-decoder.c
index 6407141..8b85828 100644
--- a/milter/manager/milter-manager-launch-command-decoder.c
+++ b/milter/manager/milter-manager-launch-command-decoder.c
@@ -96,7 +96,7 @@ decode_launch (MilterDecoder *decoder,
 {
     gint null_character_point;
     const gchar *command_line;
-    const gchar *user_name = NULL;
+    gchar *user_name = NULL;
 
     null_character_point =
         milter_decoder_decode_null_terminated_value(content,
@@ -109,12 +109,14 @@ decode_launch (MilterDecoder *decoder,
 
     command_line = content;
     if (null_character_point < length - 1)
-        user_name = content + null_character_point + 1;
+        user_name = g_strndup(content + null_character_point + 1,
+                              length - null_character_point - 1);
 
     milter_debug("[launch-command-decoder][launch] <%s>@<%s>",
                  command_line,
                  user_name ? user_name : "NULL");
     g_signal_emit(decoder, signals[LAUNCH], 0, command_line, user_name);
+    g_free(user_name);
 
     return TRUE;
 }
diff --git a/milter/manager/milter-manager-reply-decoder.c b/milter/manager/milter-manager-reply-decoder.c
index 77abd87..275ca61 100644
--- a/milter/manager/milter-manager-reply-decoder.c
+++ b/milter/manager/milter-manager-reply-decoder.c
@@ -130,7 +130,11 @@ decode_failure (MilterDecoder *decoder,
                 const gchar *content, gint32 length,
                 GError **error)
 {
-    g_signal_emit(decoder, signals[FAILURE], 0, content);
+    gchar *message;
+
+    message = g_strndup(content, length);
+    g_signal_emit(decoder, signals[FAILURE], 0, message);
+    g_free(message);
     return TRUE;
 }
 
@@ -139,7 +143,11 @@ decode_error (MilterDecoder *decoder,
               const gchar *content, gint32 length,
               GError **error)
 {
-    g_signal_emit(decoder, signals[ERROR], 0, content);
+    gchar *message;
+
+    message = g_strndup(content, length);
+    g_signal_emit(decoder, signals[ERROR], 0, message);
+    g_free(message);
     return TRUE;
 }
 
-- 
2.43.0


From bdfd16963dcffd87524eee05fdab345baf497ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 10/54] fix: don't overflow a socket address with a long path
 in a connection spec

---
 milter/core/milter-connection.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/milter/core/milter-connection.c b/milter/core/milter-connection.c
index 5b92897..184754c 100644
--- a/milter/core/milter-connection.c
+++ b/milter/core/milter-connection.c
@@ -266,6 +266,14 @@ milter_connection_parse_spec (const gchar      *spec,
 
     if (g_str_has_prefix(spec, "unix:") ||
         g_str_has_prefix(spec, "local:")) {
+        if (strlen(content) >= sizeof(((struct sockaddr_un *)NULL)->sun_path)) {
+            g_set_error(error,
+                        MILTER_CONNECTION_ERROR,
+                        MILTER_CONNECTION_ERROR_INVALID_FORMAT,
+                        "too long UNIX domain socket path: <%s>", spec);
+            return FALSE;
+        }
+
         if (domain)
             *domain = PF_UNIX;
         if (address && address_size) {
-- 
2.43.0


From 41e5f5f987b5683d67004d39ef283e37ee791599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 11/54] fix: reject a port number which doesn't fit in an
 integer

---
 milter/core/milter-connection.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/milter/core/milter-connection.c b/milter/core/milter-connection.c
index 184754c..2fbe459 100644
--- a/milter/core/milter-connection.c
+++ b/milter/core/milter-connection.c
@@ -190,6 +190,7 @@ parse_connection_spec_port_and_host (const gchar *spec, const gchar *port,
 {
     struct in_addr *ip_address;
     struct in6_addr *ipv6_address;
+    guint64 port_value;
     gint i;
 
     if (protocol_family == PF_INET) {
@@ -216,15 +217,17 @@ parse_connection_spec_port_and_host (const gchar *spec, const gchar *port,
         }
     }
 
-    *port_number = atoi(port);
-    if (*port_number > 65535) {
+    port_value = g_ascii_strtoull(port, NULL, 10);
+    if (port_value > 65535) {
         g_set_error(error,
                     MILTER_CONNECTION_ERROR,
                     MILTER_CONNECTION_ERROR_INVALID_FORMAT,
-                    "port number should be less than 65536: <%s>: <%d>",
-                    spec, *port_number);
+                    "port number should be less than 65536: "
+                    "<%s>: <%" G_GUINT64_FORMAT ">",
+                    spec, port_value);
         return FALSE;
     }
+    *port_number = port_value;
 
     return TRUE;
 }
-- 
2.43.0


From 622e1d7b9ea45ad1b31cd7e8e3141eab4a5b0fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 12/54] fix: don't include the previous packet in a negotiation
 packet

---
 milter/core/milter-encoder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/core/milter-encoder.c b/milter/core/milter-encoder.c
index 0bea8bc..a605cce 100644
--- a/milter/core/milter-encoder.c
+++ b/milter/core/milter-encoder.c
@@ -190,6 +190,7 @@ milter_encoder_encode_negotiate (MilterEncoder *encoder, MilterOption *option)
 {
     MilterEncoderPrivate *priv;
 
+    milter_encoder_clear_buffer(encoder);
     priv = MILTER_ENCODER_GET_PRIVATE(encoder);
     g_string_append_c(priv->buffer, MILTER_COMMAND_NEGOTIATE);
     if (option) {
-- 
2.43.0


From 961a749aec8b4c24b3e93055e67e8a52becb22f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 13/54] fix: flush data which is already handed to the channel

A flush request was lost when all requested data had already been
written but the write watch was still registered.
---
 milter/core/milter-writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/core/milter-writer.c b/milter/core/milter-writer.c
index 66a293e..091c0b8 100644
--- a/milter/core/milter-writer.c
+++ b/milter/core/milter-writer.c
@@ -502,7 +502,7 @@ milter_writer_flush (MilterWriter *writer, GError **error)
         return FALSE;
     }
 
-    if (priv->write_watch_id > 0) {
+    if (priv->write_watch_id > 0 && priv->buffer->len > 0) {
         priv->flush_point = priv->buffer->len;
         milter_trace("[%u] [writer][flush][flush-point][set] [%u] "
                      "<%" G_GSIZE_FORMAT ">",
-- 
2.43.0


From 4651387f8cb986c568908a8456ea49876b34da38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 14/54] fix: don't reuse a reply code set for an earlier
 command

---
 milter/client/milter-client-context.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index a1f824c..d86b67e 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3288,6 +3288,18 @@ milter_client_context_reset_message_related_data (MilterClientContext *context)
     dispose_message_result(priv);
 }
 
+static void
+clear_reply (MilterClientContext *context)
+{
+    MilterClientContextPrivate *priv;
+
+    priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
+
+    priv->reply_code = 0;
+    g_clear_pointer(&(priv->extended_reply_code), g_free);
+    g_clear_pointer(&(priv->reply_message), g_free);
+}
+
 static void
 create_reply_packet (MilterClientContext *context, MilterStatus status,
                      const gchar **packet, gsize *packet_size)
@@ -3338,6 +3350,8 @@ create_reply_packet (MilterClientContext *context, MilterStatus status,
     default:
         break;
     }
+
+    clear_reply(context);
 }
 
 static gboolean
-- 
2.43.0


From de12a1da9048c8c66e07e100ca7e64b7196338af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 15/54] fix: wait for the whole of a body chunk before
 continuing

When a chunk of a body needs several packets, the "continue" for the
first packet was handled as the one for the whole chunk. The next
command was sent and the rest of the chunk was never sent. The rest is
dropped when the body or the message ends.
---
 milter/server/milter-server-context.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 71fddcd..2fcdf05 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1842,6 +1842,7 @@ milter_server_context_reset_message_related_data (MilterServerContext *context)
     }
     priv->process_body_count = 0;
     priv->sent_end_of_message = FALSE;
+    g_string_truncate(priv->body, 0);
 
     dispose_message_result(priv);
 }
@@ -2469,6 +2470,7 @@ clear_process_body_count (MilterServerContext *context)
         g_list_free(priv->body_response_queue);
         priv->body_response_queue = NULL;
     }
+    g_string_truncate(priv->body, 0);
 
     if (priv->sent_end_of_message)
         milter_server_context_set_state(
@@ -2547,8 +2549,14 @@ cb_decoder_continue (MilterReplyDecoder *decoder, gpointer user_data)
     switch (priv->state) {
       case MILTER_SERVER_CONTEXT_STATE_BODY:
         if (check_reply_after_quit(context, priv->state, "continue")) {
-            decrement_process_body_count(context);
-            if (priv->body->len > 0) {
+            if (priv->body->len == 0) {
+                decrement_process_body_count(context);
+            } else {
+                /* The rest of the chunk isn't sent yet. "continue" is
+                 * for the whole chunk: wait for the last response. */
+                priv->body_response_queue =
+                    g_list_delete_link(priv->body_response_queue,
+                                       priv->body_response_queue);
                 if (!flush_body(context)) {
                     milter_debug("[%u] [server][receive][continue]"
                                  "[body][flush][error] [%s]",
-- 
2.43.0


From 66dae3ad7c188a19c72ce49f550fd978e3318a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 16/54] fix: answer the MTA when a child milter's reply text
 can't be passed on

---
 milter/manager/milter-manager-leader.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index c59cf48..cd666a9 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -590,7 +590,6 @@ cb_reply_code (MilterReplySignals *_reply,
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(leader),
                                     error);
         g_error_free(error);
-        return;
     }
 
     if ((code / 100) == 4) {
-- 
2.43.0


From 3cb10feb9b6530a20d212c890625e9569931308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 17/54] fix: don't answer a command twice when the child
 milters refuse it

---
 milter/manager/milter-manager-leader.c | 51 ++++++++++++++++++++------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index cd666a9..c8a0cbc 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -983,6 +983,23 @@ teardown_children_signals (MilterManagerLeader *leader,
 #undef DISCONNECT
 }
 
+/* The children may have already been answered for (by an
+ * error for example) when they refuse a command. Don't
+ * answer the command twice. */
+static MilterStatus
+fallback_unless_replied (MilterManagerLeader *leader,
+                         MilterManagerLeaderState replied_state,
+                         MilterStatus fallback_status)
+{
+    MilterManagerLeaderPrivate *priv;
+
+    priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
+    if (priv->state == replied_state)
+        return MILTER_STATUS_PROGRESS;
+
+    return fallback_status;
+}
+
 MilterStatus
 milter_manager_leader_negotiate (MilterManagerLeader *leader,
                                  MilterOption *option,
@@ -1017,7 +1034,8 @@ milter_manager_leader_negotiate (MilterManagerLeader *leader,
                                           macros_requests)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_unless_replied(
+            leader, MILTER_MANAGER_LEADER_STATE_NEGOTIATE_REPLIED, fallback_status);
     }
 }
 
@@ -1042,7 +1060,8 @@ milter_manager_leader_connect (MilterManagerLeader *leader,
                                         address, address_length)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_unless_replied(
+            leader, MILTER_MANAGER_LEADER_STATE_CONNECT_REPLIED, fallback_status);
     }
 }
 
@@ -1063,7 +1082,8 @@ milter_manager_leader_helo (MilterManagerLeader *leader, const gchar *fqdn)
     if (milter_manager_children_helo(priv->children, fqdn)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_unless_replied(
+            leader, MILTER_MANAGER_LEADER_STATE_HELO_REPLIED, fallback_status);
     }
 }
 
@@ -1085,7 +1105,8 @@ milter_manager_leader_envelope_from (MilterManagerLeader *leader,
     if (milter_manager_children_envelope_from(priv->children, from)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_unless_replied(
+            leader, MILTER_MANAGER_LEADER_STATE_ENVELOPE_FROM_REPLIED, fallback_status);
     }
 }
 
@@ -1107,7 +1128,8 @@ milter_manager_leader_envelope_recipient (MilterManagerLeader *leader,
     if (milter_manager_children_envelope_recipient(priv->children, recipient)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_unless_replied(
+            leader, MILTER_MANAGER_LEADER_STATE_ENVELOPE_RECIPIENT_REPLIED, fallback_status);
     }
 }
 
@@ -1128,7 +1150,8 @@ milter_manager_leader_data (MilterManagerLeader *leader)
     if (milter_manager_children_data(priv->children)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_unless_replied(
+            leader, MILTER_MANAGER_LEADER_STATE_DATA_REPLIED, fallback_status);
     }
 }
 
@@ -1150,7 +1173,8 @@ milter_manager_leader_unknown (MilterManagerLeader *leader,
     if (milter_manager_children_unknown(priv->children, command)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_unless_replied(
+            leader, MILTER_MANAGER_LEADER_STATE_UNKNOWN_REPLIED, fallback_status);
     }
 }
 
@@ -1172,7 +1196,8 @@ milter_manager_leader_header (MilterManagerLeader *leader,
     if (milter_manager_children_header(priv->children, name, value)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_unless_replied(
+            leader, MILTER_MANAGER_LEADER_STATE_HEADER_REPLIED, fallback_status);
     }
 }
 
@@ -1193,7 +1218,8 @@ milter_manager_leader_end_of_header (MilterManagerLeader *leader)
     if (milter_manager_children_end_of_header(priv->children)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_unless_replied(
+            leader, MILTER_MANAGER_LEADER_STATE_END_OF_HEADER_REPLIED, fallback_status);
     }
 }
 
@@ -1206,6 +1232,7 @@ milter_manager_leader_body (MilterManagerLeader *leader,
 
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     priv->state = MILTER_MANAGER_LEADER_STATE_BODY;
+    priv->sent_end_of_message = FALSE;
 
     fallback_status =
         milter_manager_configuration_get_fallback_status(priv->configuration);
@@ -1215,7 +1242,8 @@ milter_manager_leader_body (MilterManagerLeader *leader,
     if (milter_manager_children_body(priv->children, chunk, size)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_unless_replied(
+            leader, MILTER_MANAGER_LEADER_STATE_BODY_REPLIED, fallback_status);
     }
 }
 
@@ -1266,7 +1294,8 @@ milter_manager_leader_end_of_message (MilterManagerLeader *leader,
     if (milter_manager_children_end_of_message(priv->children, chunk, size)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_unless_replied(
+            leader, MILTER_MANAGER_LEADER_STATE_END_OF_MESSAGE_REPLIED, fallback_status);
     }
 }
 
-- 
2.43.0


From 71b3268e13aa501961930537c75cbe7ff5b4c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 18/54] fix: don't replace the body of the next message in a
 session

The flags which tell that a child milter replaced the body were never
reset, so that the body of each later message in the same session was
replaced (with what the MTA sent, or with nothing at all and a NULL I/O
channel when it had no body).
---
 milter/manager/milter-manager-children.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 4b555ec..c9e3528 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -475,6 +475,8 @@ dispose_message_related_data (MilterManagerChildrenPrivate *priv)
     }
 
     dispose_body_related_data(priv);
+    priv->replaced_body = FALSE;
+    priv->replaced_body_for_each_child = FALSE;
 
     if (priv->end_of_message_chunk) {
         g_free(priv->end_of_message_chunk);
-- 
2.43.0


From abc7509ef85b2f4b701834f3ddde1a214fbb2a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 19/54] fix: don't use the reply text of a child milter for a
 later command

When another child milter's verdict won, the reply code and text set by a
child milter were kept, and sent for a later command which was rejected
(or failed temporarily) without any text of its own.
---
 milter/manager/milter-manager-children.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index c9e3528..24e1c21 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -453,6 +453,7 @@ static void
 dispose_message_related_data (MilterManagerChildrenPrivate *priv)
 {
     dispose_pending_message_request(priv);
+    dispose_reply_related_data(priv);
 
     if (priv->command_waiting_child_queue) {
         g_list_free(priv->command_waiting_child_queue);
@@ -944,13 +945,13 @@ emit_reply_status_of_state (MilterManagerChildren *children,
         g_signal_emit_by_name(children, "reply-code",
                               priv->reply_code, priv->reply_extended_code,
                               priv->reply_message);
-        dispose_reply_related_data(priv);
     } else {
         if (status != MILTER_STATUS_NOT_CHANGE) {
             g_signal_emit_by_name(children,
                                   status_to_signal_name(status));
         }
     }
+    dispose_reply_related_data(priv);
 
     if (state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
         MilterManagerChildrenPrivate *priv;
-- 
2.43.0


From 9564bd34fe225237767c4e1db878b7d42968f27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 20/54] fix: don't send what a milter asked for an aborted
 message

When the MTA aborts a message while the milter is still processing it,
the modifications buffered for the message and the reply code set for it
were kept, and sent with the first reply of the next message.
---
 milter/client/milter-client-context.c | 28 +++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index d86b67e..8388d4c 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3273,6 +3273,18 @@ milter_client_context_quarantine (MilterClientContext *context,
     return TRUE;
 }
 
+static void
+clear_reply (MilterClientContext *context)
+{
+    MilterClientContextPrivate *priv;
+
+    priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
+
+    priv->reply_code = 0;
+    g_clear_pointer(&(priv->extended_reply_code), g_free);
+    g_clear_pointer(&(priv->reply_message), g_free);
+}
+
 void
 milter_client_context_reset_message_related_data (MilterClientContext *context)
 {
@@ -3285,19 +3297,11 @@ milter_client_context_reset_message_related_data (MilterClientContext *context)
     milter_protocol_agent_clear_message_related_macros(agent);
     milter_client_context_clear_mail_transaction_shelf(context);
 
-    dispose_message_result(priv);
-}
-
-static void
-clear_reply (MilterClientContext *context)
-{
-    MilterClientContextPrivate *priv;
-
-    priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
+    clear_reply(context);
+    priv->buffering = FALSE;
+    g_string_truncate(priv->buffered_packets, 0);
 
-    priv->reply_code = 0;
-    g_clear_pointer(&(priv->extended_reply_code), g_free);
-    g_clear_pointer(&(priv->reply_message), g_free);
+    dispose_message_result(priv);
 }
 
 static void
-- 
2.43.0


From 3c94daca0278a6b974c6c49559e69588cdae6f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 21/54] fix: send the body of the next message to a milter
 which skipped a body

That a milter asked to skip the rest of a body was only forgotten when the
message was aborted. An MTA doesn't abort a message which it has finished:
the milter didn't see the body of any later message in the same session.
---
 milter/server/milter-server-context.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 2fcdf05..a26eaf5 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1861,6 +1861,8 @@ milter_server_context_envelope_from (MilterServerContext *context,
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
     priv->status = MILTER_STATUS_NOT_CHANGE;
+    priv->skip_body = FALSE;
+    priv->envelope_recipient_status = MILTER_STATUS_DEFAULT;
 
     if (milter_need_debug_log()) {
         tag = milter_agent_get_tag(MILTER_AGENT(context));
-- 
2.43.0


From 46b111f86c618b8387ec73059d4e056397875ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 22/54] fix: use the end-of-message-bytes class handler for the
 end-of-message-bytes signal

---
 milter/client/milter-client-context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 8388d4c..472d4b2 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -1932,7 +1932,7 @@ milter_client_context_class_init (MilterClientContextClass *klass)
         g_signal_new("end-of-message-bytes",
                      MILTER_TYPE_CLIENT_CONTEXT,
                      G_SIGNAL_RUN_LAST,
-                     G_STRUCT_OFFSET(MilterClientContextClass, end_of_message),
+                     G_STRUCT_OFFSET(MilterClientContextClass, end_of_message_bytes),
                      status_accumulator, NULL,
                      NULL,
                      MILTER_TYPE_STATUS, 1, G_TYPE_BYTES);
-- 
2.43.0


From ac99c2226c77f9b4482b294c1d274023a620614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 23/54] fix: pass sizes to signal handlers with the width the
 signals declare

---
 milter/core/milter-command-decoder.c                    | 2 +-
 milter/core/milter-reader.c                             | 8 +++++++-
 milter/core/milter-reply-decoder.c                      | 2 +-
 milter/manager/milter-manager-control-command-decoder.c | 2 +-
 milter/manager/milter-manager-control-reply-decoder.c   | 2 +-
 5 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index f7d3553..391d2c8 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -815,7 +815,7 @@ decode_body (MilterDecoder *decoder, GError **error)
                  command_length - 1);
 
     g_signal_emit(decoder, signals[BODY], 0,
-                  buffer + 1, command_length - 1);
+                  buffer + 1, (gsize)(command_length - 1));
     return TRUE;
 }
 
diff --git a/milter/core/milter-reader.c b/milter/core/milter-reader.c
index 62d30a8..22f10ba 100644
--- a/milter/core/milter-reader.c
+++ b/milter/core/milter-reader.c
@@ -110,7 +110,13 @@ milter_reader_class_init (MilterReaderClass *klass)
                      G_STRUCT_OFFSET(MilterReaderClass, flow),
                      NULL, NULL,
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_POINTER, G_TYPE_UINT);
+                     G_TYPE_NONE, 2, G_TYPE_POINTER,
+#if GLIB_SIZEOF_SIZE_T == 8
+                     G_TYPE_UINT64
+#else
+                     G_TYPE_UINT
+#endif
+            );
 
     g_type_class_add_private(gobject_class, sizeof(MilterReaderPrivate));
 }
diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index 2de7581..7ab3f99 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -636,7 +636,7 @@ decode_reply_replace_body (MilterDecoder *decoder, GError **error)
                  command_length);
 
     g_signal_emit_by_name(decoder, "replace-body",
-                  buffer + 1, command_length - 1);
+                  buffer + 1, (gsize)(command_length - 1));
 
     return TRUE;
 }
diff --git a/milter/manager/milter-manager-control-command-decoder.c b/milter/manager/milter-manager-control-command-decoder.c
index de47820..b80d206 100644
--- a/milter/manager/milter-manager-control-command-decoder.c
+++ b/milter/manager/milter-manager-control-command-decoder.c
@@ -146,7 +146,7 @@ decode_set_configuration (MilterDecoder *decoder,
                           GError **error)
 {
     milter_debug("[control-command-decoder][set-configuration] %d", length);
-    g_signal_emit(decoder, signals[SET_CONFIGURATION], 0, content, length);
+    g_signal_emit(decoder, signals[SET_CONFIGURATION], 0, content, (gsize)length);
     return TRUE;
 }
 
diff --git a/milter/manager/milter-manager-control-reply-decoder.c b/milter/manager/milter-manager-control-reply-decoder.c
index 3f7a1be..0e0dfde 100644
--- a/milter/manager/milter-manager-control-reply-decoder.c
+++ b/milter/manager/milter-manager-control-reply-decoder.c
@@ -100,7 +100,7 @@ decode_configuration (MilterDecoder *decoder,
                       const gchar *content, gint32 length,
                       GError **error)
 {
-    g_signal_emit(decoder, signals[CONFIGURATION], 0, content, length);
+    g_signal_emit(decoder, signals[CONFIGURATION], 0, content, (gsize)length);
     return TRUE;
 }
 
-- 
2.43.0


From 5e98187fade68dfc24e333f775ee238474e130ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 24/54] fix: take macros requests in libmilter's negotiate
 handler

---
 libmilter/libmilter-compatible.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index 577185a..6dabc75 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -263,7 +263,7 @@ smfi_register (struct smfiDesc description)
 
 static MilterStatus
 cb_negotiate (MilterClientContext *context, MilterOption *option,
-              gpointer user_data)
+              MilterMacrosRequests *macros_requests, gpointer user_data)
 {
     SmfiContext *smfi_context = user_data;
     sfsistat status;
-- 
2.43.0


From a732876a8ebf37833a957eda5fd4a2f60c868de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 25/54] fix: let smfi_setsymlist add to the running
 negotiation's macros requests

---
 libmilter/libmilter-compatible.c | 42 +++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index 6dabc75..a2eb835 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -49,6 +49,7 @@ typedef struct _SmfiContextPrivate	SmfiContextPrivate;
 struct _SmfiContextPrivate
 {
     MilterClientContext *client_context;
+    MilterMacrosRequests *macros_requests;
     gpointer private_data;
 };
 
@@ -102,6 +103,7 @@ smfi_context_init (SmfiContext *context)
 
     priv = SMFI_CONTEXT_GET_PRIVATE(context);
     priv->client_context = NULL;
+    priv->macros_requests = NULL;
     priv->private_data = NULL;
 }
 
@@ -275,11 +277,13 @@ cb_negotiate (MilterClientContext *context, MilterOption *option,
 
     action = action_out = milter_option_get_action(option);
     step = step_out = milter_option_get_step(option);
+    SMFI_CONTEXT_GET_PRIVATE(smfi_context)->macros_requests = macros_requests;
     status = filter_description->xxfi_negotiate(smfi_context,
                                                 action, step,
                                                 preserve1, preserve2,
                                                 &action_out, &step_out,
                                                 &preserve1_out, &preserve2_out);
+    SMFI_CONTEXT_GET_PRIVATE(smfi_context)->macros_requests = NULL;
     if (status == SMFIS_CONTINUE) {
         milter_option_set_action(option, action_out);
         milter_option_set_step(option, step_out);
@@ -1034,22 +1038,42 @@ int
 smfi_setsymlist (SMFICTX *context, int state, char *macros)
 {
     SmfiContextPrivate *priv;
-    MilterProtocolAgent *agent;
-    MilterMacrosRequests *macros_requests;
+    MilterCommand command;
     gchar **macro_array;
 
     priv = SMFI_CONTEXT_GET_PRIVATE(context);
-    if (!priv->client_context)
+    if (!priv->macros_requests)
         return MI_FAILURE;
 
-    agent = MILTER_PROTOCOL_AGENT(priv->client_context);
-    macros_requests = milter_protocol_agent_get_macros_requests(agent);
-    if (!macros_requests)
-        macros_requests = milter_macros_requests_new();
+    switch (state) {
+    case SMFIM_CONNECT:
+        command = MILTER_COMMAND_CONNECT;
+        break;
+    case SMFIM_HELO:
+        command = MILTER_COMMAND_HELO;
+        break;
+    case SMFIM_ENVFROM:
+        command = MILTER_COMMAND_ENVELOPE_FROM;
+        break;
+    case SMFIM_ENVRCPT:
+        command = MILTER_COMMAND_ENVELOPE_RECIPIENT;
+        break;
+    case SMFIM_DATA:
+        command = MILTER_COMMAND_DATA;
+        break;
+    case SMFIM_EOM:
+        command = MILTER_COMMAND_END_OF_MESSAGE;
+        break;
+    case SMFIM_EOH:
+        command = MILTER_COMMAND_END_OF_HEADER;
+        break;
+    default:
+        return MI_FAILURE;
+    }
 
     macro_array = g_strsplit(macros, " ", -1);
-    milter_macros_requests_set_symbols_string_array(macros_requests,
-                                                    state,
+    milter_macros_requests_set_symbols_string_array(priv->macros_requests,
+                                                    command,
                                                     (const gchar**)macro_array);
     g_strfreev(macro_array);
 
-- 
2.43.0


From a01a6ec6ff9d1c2eb7b63f1ef312b2bcd67791cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:13 +0000
Subject: [PATCH 26/54] fix: install the controller's UNIX socket removal
 settings as their own properties

They were installed with the ids of the manager's: setting the
controller's through its property changed the manager's.
---
 milter/manager/milter-manager-configuration.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/milter/manager/milter-manager-configuration.c b/milter/manager/milter-manager-configuration.c
index ba9498f..2099664 100644
--- a/milter/manager/milter-manager-configuration.c
+++ b/milter/manager/milter-manager-configuration.c
@@ -291,7 +291,7 @@ milter_manager_configuration_class_init (MilterManagerConfigurationClass *klass)
                                 TRUE,
                                 G_PARAM_READWRITE | G_PARAM_CONSTRUCT);
     g_object_class_install_property(gobject_class,
-                                    PROP_REMOVE_MANAGER_UNIX_SOCKET_ON_CLOSE,
+                                    PROP_REMOVE_CONTROLLER_UNIX_SOCKET_ON_CLOSE,
                                     spec);
 
     spec = g_param_spec_boolean("remove-manager-unix-socket-on-create",
@@ -311,7 +311,7 @@ milter_manager_configuration_class_init (MilterManagerConfigurationClass *klass)
                                 TRUE,
                                 G_PARAM_READWRITE | G_PARAM_CONSTRUCT);
     g_object_class_install_property(gobject_class,
-                                    PROP_REMOVE_MANAGER_UNIX_SOCKET_ON_CREATE,
+                                    PROP_REMOVE_CONTROLLER_UNIX_SOCKET_ON_CREATE,
                                     spec);
 
     spec = g_param_spec_boolean("daemon",
-- 
2.43.0


From f3ebf0767d2ed37a7ee2ba60a1b0906e4a8215d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:13 +0000
Subject: [PATCH 27/54] fix: declare MilterClient's run-as-daemon property as a
 boolean

It was declared as a string but read and set as a boolean, so it could
neither be read nor set.
---
 milter/client/milter-client.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 98c543f..9129039 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -364,11 +364,11 @@ _milter_client_class_init (MilterClientClass *klass)
                                 G_PARAM_WRITABLE);
     g_object_class_install_property(gobject_class, PROP_START_SYSLOG, spec);
 
-    spec = g_param_spec_string("run-as-daemon",
-                               "Run As Daemon",
-                               "Whether running the client as a daemon or not",
-                               NULL,
-                               G_PARAM_READWRITE);
+    spec = g_param_spec_boolean("run-as-daemon",
+                                "Run As Daemon",
+                                "Whether running the client as a daemon or not",
+                                FALSE,
+                                G_PARAM_READWRITE);
     g_object_class_install_property(gobject_class, PROP_RUN_AS_DAEMON, spec);
 
     spec = g_param_spec_uint("max-pending-finished-sessions",
-- 
2.43.0


From 3b0fefa3b620040c4827ce2ba423375be82e7e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:13 +0000
Subject: [PATCH 28/54] fix: stop syslog when MilterClient's start-syslog
 property is set to FALSE

---
 milter/client/milter-client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 9129039..29f1316 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -895,7 +895,7 @@ set_property (GObject      *object,
         if (g_value_get_boolean(value)) {
             milter_client_start_syslog(client);
         } else {
-            milter_client_start_syslog(client);
+            milter_client_stop_syslog(client);
         }
         break;
     case PROP_RUN_AS_DAEMON:
-- 
2.43.0


From 40b3690f96d5f1617f6491ae5e96b3bfacde7d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:13 +0000
Subject: [PATCH 29/54] fix: put package platform and options back on clear
 even when they were unset

---
 milter/manager/milter-manager-configuration.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/milter/manager/milter-manager-configuration.c b/milter/manager/milter-manager-configuration.c
index 2099664..be684e9 100644
--- a/milter/manager/milter-manager-configuration.c
+++ b/milter/manager/milter-manager-configuration.c
@@ -1999,15 +1999,11 @@ clear_manager (MilterManagerConfigurationPrivate *priv)
 static void
 clear_package (MilterManagerConfigurationPrivate *priv)
 {
-    if (priv->package_platform) {
-        g_free(priv->package_platform);
-        priv->package_platform = g_strdup(MILTER_MANAGER_PACKAGE_PLATFORM);
-    }
+    g_free(priv->package_platform);
+    priv->package_platform = g_strdup(MILTER_MANAGER_PACKAGE_PLATFORM);
 
-    if (priv->package_options) {
-        g_free(priv->package_options);
-        priv->package_options = g_strdup(MILTER_MANAGER_PACKAGE_OPTIONS);
-    }
+    g_free(priv->package_options);
+    priv->package_options = g_strdup(MILTER_MANAGER_PACKAGE_OPTIONS);
 }
 
 static void
-- 
2.43.0


From 809820f5e65ddd26a52eecc44029d53b2943a008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:13 +0000
Subject: [PATCH 30/54] fix: merge the fallback status and the evaluation mode
 of an egg

Defining a milter again in a configuration starts from a merged egg: a
milter in evaluation mode went into effect.
---
 milter/manager/milter-manager-egg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/milter/manager/milter-manager-egg.c b/milter/manager/milter-manager-egg.c
index 3c85217..646a89d 100644
--- a/milter/manager/milter-manager-egg.c
+++ b/milter/manager/milter-manager-egg.c
@@ -829,6 +829,12 @@ milter_manager_egg_merge (MilterManagerEgg *egg,
     milter_manager_egg_set_enabled(egg,
                                    milter_manager_egg_is_enabled(other_egg));
 
+    milter_manager_egg_set_fallback_status(
+        egg, milter_manager_egg_get_fallback_status(other_egg));
+
+    milter_manager_egg_set_evaluation_mode(
+        egg, milter_manager_egg_is_evaluation_mode(other_egg));
+
     user_name = milter_manager_egg_get_user_name(other_egg);
     if (user_name)
         milter_manager_egg_set_user_name(egg, user_name);
-- 
2.43.0


From 5e041fc70e6601e6c51b169fe6e0869441db2a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:38 +0000
Subject: [PATCH 31/54] fix: set an error when there is no packet to write

write_packet() uses the message of the error whenever the write failed.
---
 milter/client/milter-client-context.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 472d4b2..f4cee14 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -2644,8 +2644,13 @@ write_packet_without_error_handling (MilterClientContext *context,
     gboolean success;
     GError *agent_error = NULL;
 
-    if (!packet)
+    if (!packet) {
+        g_set_error(error,
+                    MILTER_CLIENT_CONTEXT_ERROR,
+                    MILTER_CLIENT_CONTEXT_ERROR_NULL,
+                    "packet to be written is NULL");
         return FALSE;
+    }
 
     priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
 
-- 
2.43.0


From 08813d04ef3225a5cc6163aa91196659052445e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 32/54] fix: tell the caller why a modification request failed

The functions which request a modification returned FALSE without setting
the error when flushing the buffered packets failed or when there was no
body to send.
---
 milter/client/milter-client-context.c | 36 ++++++++++++++++-----------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index f4cee14..bdeb672 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -2767,7 +2767,8 @@ validate_action (const gchar *operation,
 
 static gboolean
 write_packet_on_end_of_message (MilterClientContext *context,
-                                const gchar *packet, gsize packet_size)
+                                const gchar *packet, gsize packet_size,
+                                GError **error)
 {
     gboolean success = TRUE;
     MilterClientContextPrivate *priv;
@@ -2789,19 +2790,19 @@ write_packet_on_end_of_message (MilterClientContext *context,
                      priv->packet_buffer_size);
         success = milter_agent_flush(MILTER_AGENT(context), &agent_error);
         if (!success) {
-            GError *error = NULL;
+            GError *flush_error = NULL;
             milter_utils_set_error_with_sub_error(
-                &error,
+                &flush_error,
                 MILTER_CLIENT_CONTEXT_ERROR,
                 MILTER_CLIENT_CONTEXT_ERROR_IO_ERROR,
                 agent_error,
                 "Failed to auto flush buffered packets");
             milter_error("[%u] [client][error][buffered-packets][write] %s",
                          milter_agent_get_tag(MILTER_AGENT(context)),
-                         error->message);
+                         flush_error->message);
             milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(context),
-                                        error);
-            g_error_free(error);
+                                        flush_error);
+            g_propagate_error(error, flush_error);
         }
     }
 
@@ -2848,7 +2849,7 @@ milter_client_context_add_header (MilterClientContext *context,
     milter_reply_encoder_encode_add_header(MILTER_REPLY_ENCODER(encoder),
                                            &packet, &packet_size,
                                            name, value);
-    return write_packet_on_end_of_message(context, packet, packet_size);
+    return write_packet_on_end_of_message(context, packet, packet_size, error);
 }
 
 gboolean
@@ -2893,7 +2894,7 @@ milter_client_context_insert_header (MilterClientContext *context,
     milter_reply_encoder_encode_insert_header(MILTER_REPLY_ENCODER(encoder),
                                               &packet, &packet_size,
                                               index, name, value);
-    return write_packet_on_end_of_message(context, packet, packet_size);
+    return write_packet_on_end_of_message(context, packet, packet_size, error);
 }
 
 gboolean
@@ -2937,7 +2938,7 @@ milter_client_context_change_header (MilterClientContext *context,
     milter_reply_encoder_encode_change_header(MILTER_REPLY_ENCODER(encoder),
                                               &packet, &packet_size,
                                               name, index, value);
-    return write_packet_on_end_of_message(context, packet, packet_size);
+    return write_packet_on_end_of_message(context, packet, packet_size, error);
 }
 
 gboolean
@@ -2980,7 +2981,7 @@ milter_client_context_delete_header (MilterClientContext *context,
     milter_reply_encoder_encode_delete_header(MILTER_REPLY_ENCODER(encoder),
                                               &packet, &packet_size,
                                               name, index);
-    return write_packet_on_end_of_message(context, packet, packet_size);
+    return write_packet_on_end_of_message(context, packet, packet_size, error);
 }
 
 gboolean
@@ -3034,7 +3035,7 @@ milter_client_context_change_from (MilterClientContext *context,
     milter_reply_encoder_encode_change_from(MILTER_REPLY_ENCODER(encoder),
                                             &packet, &packet_size,
                                             from, parameters);
-    return write_packet_on_end_of_message(context, packet, packet_size);
+    return write_packet_on_end_of_message(context, packet, packet_size, error);
 }
 
 gboolean
@@ -3089,7 +3090,7 @@ milter_client_context_add_recipient (MilterClientContext *context,
     milter_reply_encoder_encode_add_recipient(MILTER_REPLY_ENCODER(encoder),
                                               &packet, &packet_size,
                                               recipient, parameters);
-    return write_packet_on_end_of_message(context, packet, packet_size);
+    return write_packet_on_end_of_message(context, packet, packet_size, error);
 }
 
 gboolean
@@ -3139,7 +3140,7 @@ milter_client_context_delete_recipient (MilterClientContext *context,
     milter_reply_encoder_encode_delete_recipient(MILTER_REPLY_ENCODER(encoder),
                                                  &packet, &packet_size,
                                                  recipient);
-    return write_packet_on_end_of_message(context, packet, packet_size);
+    return write_packet_on_end_of_message(context, packet, packet_size, error);
 }
 
 /**
@@ -3194,10 +3195,15 @@ milter_client_context_replace_body (MilterClientContext *context,
                                                  body + offset,
                                                  rest_size,
                                                  &packed_size);
-        if (packed_size == 0)
+        if (packed_size == 0) {
+            g_set_error(error,
+                        MILTER_CLIENT_CONTEXT_ERROR,
+                        MILTER_CLIENT_CONTEXT_ERROR_NULL,
+                        "body to be replaced with should not be NULL");
             return FALSE;
+        }
 
-        if (!write_packet_on_end_of_message(context, packet, packet_size))
+        if (!write_packet_on_end_of_message(context, packet, packet_size, error))
             return FALSE;
     }
 
-- 
2.43.0


From 6f6ae1ff811dab7ca054f4b9c1d159176c80ba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 33/54] fix: fail to switch user when the socket's owner can't
 be changed

The error was set but the function went on, succeeded with an error set or
set a second error over the first one.
---
 milter/client/milter-client.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 29f1316..1979348 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -1815,6 +1815,7 @@ switch_user (MilterClient *client, GError **error)
                         "<%s>: <%s>: %s",
                         address_un->sun_path, password->pw_name,
                         g_strerror(errno));
+            return FALSE;
         }
     }
 
-- 
2.43.0


From 9ddedc19d049cdc2343c3cf1c91f5691ac0ea1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 34/54] fix: don't report success together with a cleanup error

---
 milter/client/milter-client.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 1979348..e1f3317 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -2379,6 +2379,7 @@ milter_client_run (MilterClient *client, GError **error)
                          "failed to cleanup: %s",
                          local_error->message);
             g_propagate_error(error, local_error);
+            success = FALSE;
         } else {
             milter_error("[client][run][fail][cleanup][error] "
                          "failed to cleanup: %s",
-- 
2.43.0


From 505cdedfb85d011df7b7095f782dd91728db0010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:44 +0000
Subject: [PATCH 35/54] fix: don't leak the list of tried paths when saving
 succeeded

---
 milter/manager/milter-manager-configuration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-configuration.c b/milter/manager/milter-manager-configuration.c
index be684e9..27e9060 100644
--- a/milter/manager/milter-manager-configuration.c
+++ b/milter/manager/milter-manager-configuration.c
@@ -1226,8 +1226,8 @@ milter_manager_configuration_save_custom (MilterManagerConfiguration *configurat
                     MILTER_MANAGER_CONFIGURATION_ERROR_SAVE,
                     "can't find writable custom configuration file in %s",
                     inspected_tried_paths->str);
-        g_string_free(inspected_tried_paths, TRUE);
     }
+    g_string_free(inspected_tried_paths, TRUE);
 
     return success;
 }
-- 
2.43.0


From 6876a49f06fe344a269e189496b49376b45c1982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:44 +0000
Subject: [PATCH 36/54] fix: release the children of an earlier negotiation

They were leaked with their signals still connected to the leader, which
they used after it was gone.
---
 milter/manager/milter-manager-leader.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index c8a0cbc..700892a 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -1012,6 +1012,12 @@ milter_manager_leader_negotiate (MilterManagerLeader *leader,
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     priv->state = MILTER_MANAGER_LEADER_STATE_NEGOTIATE;
 
+    if (priv->children) {
+        teardown_children_signals(leader, priv->children);
+        g_object_unref(priv->children);
+        priv->children = NULL;
+    }
+
     event_loop = milter_agent_get_event_loop(MILTER_AGENT(priv->client_context));
     priv->children = milter_manager_children_new(priv->configuration,
                                                  event_loop);
-- 
2.43.0


From 8e65142bd48a4ce1ff23d95ea7d8cd8b9e64ddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 37/54] fix: don't use filtered macros after they are released

---
 milter/server/milter-server-context.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index a26eaf5..d26142b 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1035,8 +1035,6 @@ prepend_macro (MilterServerContext *context, GString *packed_packet,
                                                &packet, &packet_size,
                                                command,
                                                target_macros);
-    if (filtered_macros)
-        g_hash_table_unref(filtered_macros);
 
     if (milter_need_debug_log()) {
         gchar *command_name;
@@ -1055,6 +1053,9 @@ prepend_macro (MilterServerContext *context, GString *packed_packet,
         g_free(inspected_macros);
     }
 
+    if (filtered_macros)
+        g_hash_table_unref(filtered_macros);
+
     g_string_prepend_len(packed_packet, packet, packet_size);
 }
 
-- 
2.43.0


From 9662ffd7a8900b2443b361e471124e9916f15be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 38/54] fix: don't leak the modified time in configuration XML

---
 milter/manager/milter-manager-configuration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/manager/milter-manager-configuration.c b/milter/manager/milter-manager-configuration.c
index 27e9060..af64e64 100644
--- a/milter/manager/milter-manager-configuration.c
+++ b/milter/manager/milter-manager-configuration.c
@@ -2192,6 +2192,7 @@ milter_manager_configuration_to_xml_string (MilterManagerConfiguration *configur
             milter_utils_xml_append_text_element(string,
                                                  "last-modified", content,
                                                  indent + 2);
+            g_free(content);
         }
         g_free(full_path);
     }
-- 
2.43.0


From 206fc69196b584277f15976dde77f0a55e68a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 39/54] fix: don't leak the message of a configuration save
 failure

---
 milter/manager/milter-manager-controller-context.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/manager/milter-manager-controller-context.c b/milter/manager/milter-manager-controller-context.c
index 2137018..60f661c 100644
--- a/milter/manager/milter-manager-controller-context.c
+++ b/milter/manager/milter-manager-controller-context.c
@@ -134,6 +134,7 @@ cb_decoder_set_configuration (MilterManagerControlCommandDecoder *decoder,
                                                           &packet,
                                                           &packet_size,
                                                           message);
+        g_free(message);
         if (!milter_agent_write_packet(agent, packet, packet_size, &error)) {
             milter_error("[controller][error][write][error] %s",
                          error->message);
-- 
2.43.0


From 917eed2bf2ccdd97fc21e4241c4dbee12792899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 40/54] fix: free the list nodes of what is removed from
 results and processes

---
 milter/core/milter-message-result.c              | 3 ++-
 milter/core/milter-session-result.c              | 3 ++-
 milter/manager/milter-manager-process-launcher.c | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/milter/core/milter-message-result.c b/milter/core/milter-message-result.c
index 76620af..66158a5 100644
--- a/milter/core/milter-message-result.c
+++ b/milter/core/milter-message-result.c
@@ -496,7 +496,8 @@ milter_message_result_remove_recipient (MilterMessageResult *result,
 
         if (strcmp(_recipient, recipient) == 0) {
             g_free(_recipient);
-            priv->recipients = g_list_remove_link(priv->recipients, node);
+            priv->recipients = g_list_delete_link(priv->recipients, node);
+            break;
         }
     }
 }
diff --git a/milter/core/milter-session-result.c b/milter/core/milter-session-result.c
index 27cd743..1bf18fa 100644
--- a/milter/core/milter-session-result.c
+++ b/milter/core/milter-session-result.c
@@ -221,7 +221,8 @@ milter_session_result_remove_message_result (MilterSessionResult *result,
         if (_message_result == message_result) {
             g_object_unref(_message_result);
             priv->message_results =
-                g_list_remove_link(priv->message_results, node);
+                g_list_delete_link(priv->message_results, node);
+            break;
         }
     }
 }
diff --git a/milter/manager/milter-manager-process-launcher.c b/milter/manager/milter-manager-process-launcher.c
index cb8f746..cc0459f 100644
--- a/milter/manager/milter-manager-process-launcher.c
+++ b/milter/manager/milter-manager-process-launcher.c
@@ -225,7 +225,7 @@ child_watch_func (GPid pid, gint status, gpointer user_data)
                     status, data->command_line);
     }
     process_data_free(process->data);
-    priv->processes = g_list_remove_link(priv->processes, process);
+    priv->processes = g_list_delete_link(priv->processes, process);
 }
 
 static gboolean
-- 
2.43.0


From ea50d0e647d4bede98ac10eaa45e63bbf11b1fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:04 +0000
Subject: [PATCH 41/54] fix: don't leak the message of an accept error

---
 milter/client/milter-client.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index e1f3317..62e3734 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -1992,6 +1992,7 @@ accept_error_watch_func (GIOChannel *channel, GIOCondition condition,
                         MILTER_CLIENT_ERROR_IO_ERROR,
                         "IO error on waiting MTA connection socket: %s",
                         message);
+    g_free(message);
     milter_error("[client][watch][error] %s", error->message);
     milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(client),
                                 error);
-- 
2.43.0


From 16135c88ca3e7657c6d05321bfa666ef509fd2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:43 +0000
Subject: [PATCH 42/54] fix: don't leak the custom directory's name and a
 child's command

---
 milter/manager/milter-manager-children.c | 1 +
 milter/manager/milter-manager-main.c     | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 24e1c21..c395c72 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -2654,6 +2654,7 @@ milter_manager_children_start_child (MilterManagerChildren *children,
                                                         &packet, &packet_size,
                                                         command,
                                                         user_name);
+    g_free(command);
     milter_writer_write(priv->launcher_writer, packet, packet_size, &error);
     g_object_unref(encoder);
 
diff --git a/milter/manager/milter-manager-main.c b/milter/manager/milter-manager-main.c
index 1645f48..3556057 100644
--- a/milter/manager/milter-manager-main.c
+++ b/milter/manager/milter-manager-main.c
@@ -553,6 +553,7 @@ append_custom_configuration_directory (MilterManagerConfiguration *config)
                                  "configuration directory: <%s>: %s",
                                  custom_config_directory,
                                  g_strerror(errno));
+            g_free(custom_config_directory);
             return;
         }
         if (chown(custom_config_directory,
@@ -562,6 +563,7 @@ append_custom_configuration_directory (MilterManagerConfiguration *config)
                                  custom_config_directory,
                                  password->pw_uid, password->pw_gid,
                                  g_strerror(errno));
+            g_free(custom_config_directory);
             return;
         }
     }
-- 
2.43.0


From 5a6e2a5ea408d2a9b5d792ac2068a901bde0e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:43 +0000
Subject: [PATCH 43/54] fix: don't run a command as root when its user can't be
 taken over

---
 milter/manager/milter-manager-process-launcher.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/milter/manager/milter-manager-process-launcher.c b/milter/manager/milter-manager-process-launcher.c
index cc0459f..c9c5c50 100644
--- a/milter/manager/milter-manager-process-launcher.c
+++ b/milter/manager/milter-manager-process-launcher.c
@@ -24,6 +24,7 @@
 #include <sys/types.h>
 #include <sys/wait.h>
 #include <unistd.h>
+#include <stdlib.h>
 #include <string.h>
 #include <pwd.h>
 #include <grp.h>
@@ -259,11 +260,16 @@ setup_child (gpointer user_data)
         return;
     }
 
+    if (geteuid() != 0) {
+        milter_debug("[launcher][child][authority][unprivileged]");
+        return;
+    }
+
     if (setgid(password->pw_gid) == -1) {
         milter_error("[launcher][error][child][authority][group] "
                      "failed to change GID: <%d>: %s",
                      password->pw_gid, g_strerror(errno));
-        return;
+        _exit(EXIT_FAILURE);
     } else {
         milter_debug("[launcher][child][authority][group] <%d>",
                      password->pw_gid);
@@ -273,7 +279,7 @@ setup_child (gpointer user_data)
         milter_error("[launcher][error][child][authority][groups] "
                      "failed to initialize group access: <%s>:<%d>: %s",
                      password->pw_name, password->pw_gid, g_strerror(errno));
-        return;
+        _exit(EXIT_FAILURE);
     } else {
         milter_debug("[launcher][child][authority][groups] <%s>:<%d>",
                      password->pw_name, password->pw_gid);
@@ -283,7 +289,7 @@ setup_child (gpointer user_data)
         milter_error("[launcher][error][child][authority][user] "
                      "failed to change UID: <%d>: %s",
                      password->pw_uid, g_strerror(errno));
-        return;
+        _exit(EXIT_FAILURE);
     } else {
         milter_debug("[launcher][child][authority][user] <%d>",
                      password->pw_uid);
-- 
2.43.0


From 6ec53429b582ac8a81ddd1454216363a5b3e96f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:43 +0000
Subject: [PATCH 44/54] fix: answer a failed reload with an error

---
 .../milter-manager-controller-context.c       | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/milter/manager/milter-manager-controller-context.c b/milter/manager/milter-manager-controller-context.c
index 60f661c..5aa5831 100644
--- a/milter/manager/milter-manager-controller-context.c
+++ b/milter/manager/milter-manager-controller-context.c
@@ -192,21 +192,26 @@ cb_decoder_reload (MilterManagerControlCommandDecoder *decoder,
 
     priv = MILTER_MANAGER_CONTROLLER_CONTEXT_GET_PRIVATE(context);
     config = milter_manager_get_configuration(priv->manager);
-    if (!milter_manager_configuration_reload(config, &error)) {
+
+    agent = MILTER_AGENT(context);
+    base_encoder = milter_agent_get_encoder(agent);
+    encoder = MILTER_MANAGER_CONTROL_REPLY_ENCODER(base_encoder);
+    if (milter_manager_configuration_reload(config, &error)) {
+        milter_manager_control_reply_encoder_encode_success(encoder,
+                                                            &packet,
+                                                            &packet_size);
+    } else {
         milter_error("[controller][reload][error] %s",
                      error->message);
+        milter_manager_control_reply_encoder_encode_error(encoder,
+                                                          &packet,
+                                                          &packet_size,
+                                                          error->message);
         g_error_free(error);
         error = NULL;
     }
-
-    agent = MILTER_AGENT(context);
-    base_encoder = milter_agent_get_encoder(agent);
-    encoder = MILTER_MANAGER_CONTROL_REPLY_ENCODER(base_encoder);
-    milter_manager_control_reply_encoder_encode_success(encoder,
-                                                        &packet,
-                                                        &packet_size);
     if (!milter_agent_write_packet(agent, packet, packet_size, &error)) {
-        milter_error("[controller][error][write][success] %s",
+        milter_error("[controller][error][write][reload] %s",
                      error->message);
         g_error_free(error);
     }
-- 
2.43.0


From 5794c34eda42897fe83c3472a4fd9db7fe37eb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 45/54] fix: don't cut counted data at a NUL byte on its way
 through a signal

---
 milter/client/milter-client-context.c            |  4 ++--
 milter/core/milter-command-decoder.c             |  4 ++--
 milter/core/milter-reply-signals.c               |  2 +-
 .../milter-manager-control-command-decoder.c     |  8 ++++++--
 .../milter-manager-control-reply-decoder.c       |  8 ++++++--
 milter/server/milter-server-context.c            | 16 ++++++++++++----
 6 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index bdeb672..9b0b4af 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -1749,7 +1749,7 @@ milter_client_context_class_init (MilterClientContextClass *klass)
                      NULL,
                      MILTER_TYPE_STATUS,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
@@ -1907,7 +1907,7 @@ milter_client_context_class_init (MilterClientContextClass *klass)
                      NULL,
                      MILTER_TYPE_STATUS,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index 391d2c8..744a123 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -177,7 +177,7 @@ milter_command_decoder_class_init (MilterCommandDecoderClass *klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                       G_TYPE_UINT64
 #else
@@ -194,7 +194,7 @@ milter_command_decoder_class_init (MilterCommandDecoderClass *klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/core/milter-reply-signals.c b/milter/core/milter-reply-signals.c
index 5b9c6e2..e234a0a 100644
--- a/milter/core/milter-reply-signals.c
+++ b/milter/core/milter-reply-signals.c
@@ -195,7 +195,7 @@ base_init (gpointer klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/manager/milter-manager-control-command-decoder.c b/milter/manager/milter-manager-control-command-decoder.c
index b80d206..0c3bd20 100644
--- a/milter/manager/milter-manager-control-command-decoder.c
+++ b/milter/manager/milter-manager-control-command-decoder.c
@@ -67,10 +67,14 @@ milter_manager_control_command_decoder_class_init (MilterManagerControlCommandDe
                      NULL, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT
 #endif
             );
 
diff --git a/milter/manager/milter-manager-control-reply-decoder.c b/milter/manager/milter-manager-control-reply-decoder.c
index 0e0dfde..1786673 100644
--- a/milter/manager/milter-manager-control-reply-decoder.c
+++ b/milter/manager/milter-manager-control-reply-decoder.c
@@ -63,10 +63,14 @@ milter_manager_control_reply_decoder_class_init (MilterManagerControlReplyDecode
                      NULL, NULL,
  #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT
 #endif
             );
 }
diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index d26142b..7589b6d 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -295,10 +295,14 @@ milter_server_context_class_init (MilterServerContextClass *klass)
                      stop_on_accumulator, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT
 #endif
             );
 
@@ -311,10 +315,14 @@ milter_server_context_class_init (MilterServerContextClass *klass)
                      stop_on_accumulator, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT
 #endif
             );
 
-- 
2.43.0


From 7ddb8fcf490f911e6016fb7646720f4f14d863b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:33 +0000
Subject: [PATCH 46/54] fix: keep what is after a NUL byte of a message's last
 chunk

---
 milter/manager/milter-manager-children.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index c395c72..0746231 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -358,13 +358,28 @@ pending_end_of_header_request_new (void)
     return request;
 }
 
+static gchar *
+chunk_dup (const gchar *chunk, gsize size)
+{
+    gchar *copied_chunk;
+
+    if (!chunk)
+        return NULL;
+
+    copied_chunk = g_malloc(size + 1);
+    memcpy(copied_chunk, chunk, size);
+    copied_chunk[size] = '\0';
+
+    return copied_chunk;
+}
+
 static PendingMessageRequest *
 pending_body_request_new (const gchar *chunk, gsize size)
 {
     PendingMessageRequest *request;
 
     request = pending_message_request_new(MILTER_COMMAND_BODY);
-    request->arguments.body.chunk = g_strndup(chunk, size);
+    request->arguments.body.chunk = chunk_dup(chunk, size);
     request->arguments.body.size = size;
 
     return request;
@@ -376,7 +391,7 @@ pending_end_of_message_request_new (const gchar *chunk, gsize size)
     PendingMessageRequest *request;
 
     request = pending_message_request_new(MILTER_COMMAND_END_OF_MESSAGE);
-    request->arguments.end_of_message.chunk = g_strndup(chunk, size);
+    request->arguments.end_of_message.chunk = chunk_dup(chunk, size);
     request->arguments.end_of_message.size = size;
 
     return request;
@@ -4144,7 +4159,7 @@ milter_manager_children_end_of_message (MilterManagerChildren *children,
 
     if (priv->end_of_message_chunk)
         g_free(priv->end_of_message_chunk);
-    priv->end_of_message_chunk = g_strdup(chunk);
+    priv->end_of_message_chunk = chunk_dup(chunk, size);
     priv->end_of_message_size = size;
     if (priv->body_file)
         g_io_channel_seek_position(priv->body_file, 0, G_SEEK_SET, NULL);
-- 
2.43.0


From b5f69bb689dd7cbc4b1f7cb07c5f008bc68b48fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:14 +0000
Subject: [PATCH 47/54] fix: offer every child milter the options the MTA
 offered

The options the MTA offered were merged with the replies of children in
place. A child connected later, for example on retrying to connect, was
offered what was left of them.
---
 milter/manager/milter-manager-children.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 0746231..c157483 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -3194,6 +3194,7 @@ milter_manager_children_negotiate (MilterManagerChildren *children,
     MilterManagerChildrenPrivate *priv;
     gboolean success = TRUE;
     gboolean privilege;
+    MilterOption *offered_option;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
@@ -3201,7 +3202,7 @@ milter_manager_children_negotiate (MilterManagerChildren *children,
         g_object_unref(priv->option);
     priv->option = option;
     if (priv->option) {
-        g_object_ref(priv->option);
+        priv->option = milter_option_copy(option);
         if (milter_option_get_version(priv->option) >
             MAX_SUPPORTED_MILTER_PROTOCOL_VERSION) {
             milter_option_set_version(priv->option,
@@ -3231,19 +3232,24 @@ milter_manager_children_negotiate (MilterManagerChildren *children,
         g_queue_push_tail(priv->reply_queue, child);
     }
 
+    /* priv->option is changed by each reply from a child. All children
+       should be offered what the MTA offers. */
+    offered_option = milter_option_copy(priv->option);
     copied_milters = g_list_copy(priv->milters);
     for (node = copied_milters; node; node = g_list_next(node)) {
         MilterManagerChild *child = MILTER_MANAGER_CHILD(node->data);
 
-        if (!child_establish_connection(child, option, children, FALSE)) {
+        if (!child_establish_connection(child, offered_option, children,
+                                        FALSE)) {
             if (privilege &&
                 milter_manager_children_start_child(children, child)) {
-                prepare_retry_establish_connection(child, option, children,
-                                                   FALSE);
+                prepare_retry_establish_connection(child, offered_option,
+                                                   children, FALSE);
             }
         }
     }
     g_list_free(copied_milters);
+    g_object_unref(offered_option);
 
     return success;
 }
-- 
2.43.0


From e9bb786c1ce9964054df8d733a0ed7893c1c8eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:34 +0000
Subject: [PATCH 48/54] fix: don't touch a reader which was released when it
 finished

---
 milter/core/milter-reader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/milter/core/milter-reader.c b/milter/core/milter-reader.c
index 22f10ba..0d65844 100644
--- a/milter/core/milter-reader.c
+++ b/milter/core/milter-reader.c
@@ -225,6 +225,7 @@ read_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     MilterReader *reader = data;
     gboolean keep_callback = TRUE;
 
+    g_object_ref(reader);
     priv = MILTER_READER_GET_PRIVATE(reader);
     priv->processing = TRUE;
     milter_trace("[%d] [reader][callback][read][process][start]", priv->tag);
@@ -256,6 +257,7 @@ read_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
 
     milter_trace("[%d] [reader][callback][read][process][done]", priv->tag);
     priv->processing = FALSE;
+    g_object_unref(reader);
 
     return keep_callback;
 }
@@ -268,6 +270,7 @@ error_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     gboolean keep_callback = FALSE;
     gboolean error_occurred = FALSE;
 
+    g_object_ref(reader);
     priv = MILTER_READER_GET_PRIVATE(reader);
     milter_trace("[%d] [reader][callback][error][start]", priv->tag);
 
@@ -308,6 +311,7 @@ error_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     priv->error_watch_id = 0;
     clear_watch_id(priv);
     finish(reader);
+    g_object_unref(reader);
 
     return keep_callback;
 }
-- 
2.43.0


From a5fd1c484a83d2f7bbc2968b5cac84f612f2ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:34 +0000
Subject: [PATCH 49/54] fix: don't use a finished session after it was freed
 when a client is disposed

---
 milter/client/milter-client.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 62e3734..355d12b 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -770,6 +770,7 @@ dispose (GObject *object)
     }
 
     dispose_accept_watchers(priv);
+    dispose_finisher(priv);
 
     if (priv->accept_loop) {
         g_object_unref(priv->accept_loop);
@@ -786,6 +787,7 @@ dispose (GObject *object)
         priv->connection_spec = NULL;
     }
 
+    dispose_finished_data(MILTER_CLIENT(object));
     if (priv->processing_data) {
         g_list_foreach(priv->processing_data, (GFunc)process_data_free, NULL);
         g_list_free(priv->processing_data);
@@ -824,9 +826,6 @@ dispose (GObject *object)
         priv->effective_group = NULL;
     }
 
-    dispose_finisher(priv);
-    dispose_finished_data(MILTER_CLIENT(object));
-
     if (priv->pid_file) {
         g_free(priv->pid_file);
         priv->pid_file = NULL;
-- 
2.43.0


From 7e3f2f532f33c1f3081b89958d3c7d45be9d0fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:34 +0000
Subject: [PATCH 50/54] fix: a worker doesn't stop accepting because one
 accept() failed

---
 milter/client/milter-client.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 355d12b..4126747 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -2442,20 +2442,17 @@ worker_accept_watch_func (GIOChannel *channel, GIOCondition condition,
     gint server_fd, client_fd;
     MilterGenericSocketAddress address;
     socklen_t address_size;
-    gboolean keep_callback = TRUE;
 
     server_fd = g_io_channel_unix_get_fd(channel);
     client_fd = accept_connection_fd(client, server_fd, &address, &address_size);
-    if (client_fd == -1) {
-        keep_callback = errno == EAGAIN;
-    } else {
+    if (client_fd != -1) {
         GIOChannel *client_channel;
         client_channel = setup_client_channel(client_fd);
         single_thread_process_client_channel(client, client_channel,
                                              &address, (socklen_t)address_size);
         g_io_channel_unref(client_channel);
     }
-    return keep_callback;
+    return TRUE;
 }
 
 static gboolean
-- 
2.43.0


From 802917fd37ee671014967db8d0a3e69cf5336e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:41 +0000
Subject: [PATCH 51/54] fix: go on processing sessions while too many are open
 to accept another

---
 milter/client/milter-client.c | 79 +++++++++++++++++++++++++++++++++++
 1 file changed, 79 insertions(+)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 4126747..c83401e 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -82,6 +82,9 @@ struct _MilterClientPrivate
     MilterEventLoop *event_loop;
     guint accept_watch_id;
     guint accept_error_watch_id;
+    guint accept_suspend_id;
+    GIOFunc suspended_accept_func;
+    gint suspended_accept_priority;
     gchar *connection_spec;
     GList *processing_data;
     guint n_processing_sessions;
@@ -491,6 +494,9 @@ _milter_client_init (MilterClient *client)
 
     priv->accept_watch_id = 0;
     priv->accept_error_watch_id = 0;
+    priv->accept_suspend_id = 0;
+    priv->suspended_accept_func = NULL;
+    priv->suspended_accept_priority = G_PRIORITY_DEFAULT;
     priv->connection_spec = NULL;
     priv->processing_data = NULL;
     priv->n_processing_sessions = 0;
@@ -705,6 +711,11 @@ watch_worker_process (GPid     pid,
 static void
 dispose_accept_watchers (MilterClientPrivate *priv)
 {
+    if (priv->accept_suspend_id > 0) {
+        milter_event_loop_remove(priv->event_loop, priv->accept_suspend_id);
+        priv->accept_suspend_id = 0;
+    }
+
     if (priv->accept_watch_id > 0) {
         if (priv->accept_loop) {
             milter_event_loop_remove(priv->accept_loop, priv->accept_watch_id);
@@ -1411,6 +1422,65 @@ accept_connection_fd (MilterClient *client, gint server_fd,
     return client_fd;
 }
 
+static gboolean
+cb_timeout_resume_accept (gpointer data)
+{
+    MilterClient *client = data;
+    MilterClientPrivate *priv;
+
+    priv = MILTER_CLIENT_GET_PRIVATE(client);
+    priv->accept_suspend_id = 0;
+    milter_warning("[client][accept][resume] resume accepting connection");
+    priv->accept_watch_id =
+        milter_event_loop_watch_io_full(priv->event_loop,
+                                        priv->suspended_accept_priority,
+                                        priv->listening_channel,
+                                        G_IO_IN | G_IO_PRI,
+                                        priv->suspended_accept_func,
+                                        client,
+                                        NULL);
+
+    return FALSE;
+}
+
+/* The event loop which accepts connections also processes the
+ * sessions to be waited for. So we can't sleep here. The caller
+ * must return FALSE if this returns TRUE. */
+static gboolean
+suspend_accept_on_unacceptable (MilterClient *client, GIOFunc accept_func,
+                                gint priority)
+{
+    MilterClientPrivate *priv;
+    guint suspend_time, max_connections;
+
+    priv = MILTER_CLIENT_GET_PRIVATE(client);
+
+    max_connections = milter_client_get_max_connections(client);
+    if (max_connections == 0 || priv->n_processing_sessions < max_connections)
+        return FALSE;
+
+    priv->accept_watch_id = 0;
+    if (priv->accept_suspend_id > 0)
+        return TRUE;
+
+    suspend_time = milter_client_get_suspend_time_on_unacceptable(client);
+    milter_warning("[client][accept][suspend] "
+                   "too many processing connection: %u, max: %u; "
+                   "suspend accepting connection in %d seconds",
+                   priv->n_processing_sessions,
+                   max_connections,
+                   suspend_time);
+    priv->suspended_accept_func = accept_func;
+    priv->suspended_accept_priority = priority;
+    priv->accept_suspend_id =
+        milter_event_loop_add_timeout(priv->event_loop,
+                                      suspend_time,
+                                      cb_timeout_resume_accept,
+                                      client);
+
+    return TRUE;
+}
+
 static GIOChannel *
 setup_client_channel(gint client_fd)
 {
@@ -2238,6 +2308,11 @@ single_thread_single_loop_accept_watch_func (GIOChannel *channel,
     gboolean keep_callback = TRUE;
     gint fd;
 
+    if (suspend_accept_on_unacceptable(
+            client, single_thread_single_loop_accept_watch_func,
+            G_PRIORITY_DEFAULT))
+        return FALSE;
+
     fd = g_io_channel_unix_get_fd(channel);
     keep_callback = single_thread_single_loop_accept_connection(client, fd);
     if (!keep_callback)
@@ -2443,6 +2518,10 @@ worker_accept_watch_func (GIOChannel *channel, GIOCondition condition,
     MilterGenericSocketAddress address;
     socklen_t address_size;
 
+    if (suspend_accept_on_unacceptable(client, worker_accept_watch_func,
+                                       G_PRIORITY_HIGH))
+        return FALSE;
+
     server_fd = g_io_channel_unix_get_fd(channel);
     client_fd = accept_connection_fd(client, server_fd, &address, &address_size);
     if (client_fd != -1) {
-- 
2.43.0


From 5e190d840050417a0995f4e9d57ab9e405c39298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:16 +0000
Subject: [PATCH 52/54] fix: suspend accepting when file descriptors run out

errno was looked at after the failure was logged and emitted, which had
changed it.
---
 milter/client/milter-client.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index c83401e..e9c3977 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -1385,6 +1385,7 @@ accept_connection_fd (MilterClient *client, gint server_fd,
     client_fd = accept(server_fd, (struct sockaddr *)(address), address_size);
     if (client_fd == -1) {
         GError *error = NULL;
+        gint accept_errno = errno;
 
         if (errno == EAGAIN)
             return client_fd;
@@ -1392,13 +1393,13 @@ accept_connection_fd (MilterClient *client, gint server_fd,
         g_set_error(&error,
                     MILTER_CONNECTION_ERROR,
                     MILTER_CONNECTION_ERROR_ACCEPT_FAILURE,
-                    "failed to accept(): %s", g_strerror(errno));
-        milter_error("[client][error][accept] %s", g_strerror(errno));
+                    "failed to accept(): %s", g_strerror(accept_errno));
+        milter_error("[client][error][accept] %s", g_strerror(accept_errno));
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(client),
                                     error);
         g_error_free(error);
 
-        if (errno == EMFILE) {
+        if (accept_errno == EMFILE) {
             milter_warning("[client][accept][suspend] "
                            "too many file is opened. "
                            "suspend accepting connection in %d seconds",
-- 
2.43.0


From d17daf952369e3a5d31eb79e8c3e24271752c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:18 +0000
Subject: [PATCH 53/54] fix: forget the available macros when several are set
 at once

---
 milter/core/milter-protocol-agent.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/core/milter-protocol-agent.c b/milter/core/milter-protocol-agent.c
index afeb0e6..630d9e5 100644
--- a/milter/core/milter-protocol-agent.c
+++ b/milter/core/milter-protocol-agent.c
@@ -347,6 +347,7 @@ milter_protocol_agent_set_macros_valist (MilterProtocolAgent *agent,
         update_macro(macros, name, value);
         name = va_arg(var_args, gchar *);
     }
+    clear_available_macros(priv);
 }
 
 void
-- 
2.43.0


From 5469c75c2b83078a907dfb222c083ac1dfdddfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:20 +0000
Subject: [PATCH 54/54] fix: stop listening to the abort of children which are
 given up

---
 milter/manager/milter-manager-leader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index 700892a..c134b41 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -977,6 +977,7 @@ teardown_children_signals (MilterManagerLeader *leader,
     DISCONNECT(connection_failure);
     DISCONNECT(shutdown);
     DISCONNECT(skip);
+    DISCONNECT(abort);
 
     DISCONNECT(error);
     DISCONNECT(finished);
-- 
2.43.0

