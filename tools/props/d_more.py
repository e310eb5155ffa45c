CC, SC, AG, PA = "milter/client/milter-client-context.c", "milter/server/milter-server-context.c", "milter/core/milter-agent.c", "milter/core/milter-protocol-agent.c"
CH = "milter/manager/milter-manager-children.c"
P = [
dict(id="C21", title="Nothing kept for one message is used for the next one",
 statement="When a message ends, nothing that was kept for it is left for the next one. After the child coordinator has replied to the end of a message, and after an abort (which it passes to the milters processing the message, resetting their contexts), its collected headers and body, waiting commands, requested changes (sender, quarantine, replaced body) and reply text are gone; the reply text is gone after every reply it sends. Resetting a server context's message data clears its body rest, waiting body answers, message result and macros, and what an answer to the previous message left (skipped body, recipient's refusal) is cleared when the next message starts even without an abort. When the MTA aborts a message, a client context drops the buffered modifications, the reply text, the macros and the message result; the reason of a quarantine is dropped at the latest when the next end of message starts.",
 over=["histories"], text="every combination of data kept for a message, every answer of the last milter with every recorded status, the abort at any time",
 why="A leftover shows only in a later message of the same session, after a particular first message (refused, skipped, aborted while waiting); tests use one message per session.",
 files=[CH, SC, CC], mech=[("end of a message in the child coordinator", CH + ": milter_manager_children_abort, the reply to the end of a message"),
  ("server context reset", SC + ": milter_server_context_reset_message_related_data, milter_server_context_envelope_from"), ("client context abort", CC + ": handler of the decoder's abort")],
 state=[("fields the message handlers fill", "found by analysing what the message commands, answers and modification requests store", CH)],
 observe=["modifications, reply texts and bodies of a second message in the same session"],
 technique="field discovery over the call graph of the message handlers; abstract interpretation of the functions that end a message with every such field in use: each is back at its initial value on every path",
 note="Numeric positions that the next message always rewrites (header index, body offset, sizes) and the child coordinator's statuses (C05) are not covered; values a program keeps on the mail transaction shelf after a finished message are not covered."),
]
