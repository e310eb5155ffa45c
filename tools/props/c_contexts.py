CC, SC, AG, PA = "milter/client/milter-client-context.c", "milter/server/milter-server-context.c", "milter/core/milter-agent.c", "milter/core/milter-protocol-agent.c"
P = [
dict(id="C16", title="Each MTA command reaches its own handler and is answered once",
 statement="For every command the client context decodes, it enters that command's state, stops the timer waiting for the MTA and selects that command's macros before it emits that command's signal with exactly what was received; it then emits the command's response signal with the handlers' status exactly once, unless the status is PROGRESS, in which case none. An abort hands over the state it interrupts and drops the message's macros and values; a quit enters the quit state and closes the session; defined macros are kept for their command; a quarantine of an earlier message is dropped when a new end of message starts.",
 over=["histories", "inputs"], text="every command, every handler status, chunks absent, empty or given, chunk passed as bytes or as memory, timer pending or not",
 why="Which combination of command, status and pending state occurs depends on the session; tests drive a few sessions.",
 files=[CC], mech=[("decoder signal handlers", CC + ": decoder_new and the handlers it connects")],
 state=[("state and last state", "what the session is doing", CC), ("quarantine reason", "the message's quarantine", CC)],
 observe=["order and arguments of the context's signals"],
 technique="abstract interpretation of every connected decoder handler (helpers inlined); event order on every path compared with the command table",
 note="Private field names are found through the public getters."),
dict(id="C36", title="Each status is answered to the MTA with its own packet, once",
 statement="When a command's response is given with a status (DEFAULT meaning CONTINUE, or all options for a negotiation, or ABORT for an abort) the client context records it, goes to that command's replied state and writes exactly the packet of that status (continue, accept, discard, skip, reject, temporary failure, the reply code and text set for this command instead of the latter two, or the negotiated options), and nothing for statuses that have no reply; the text set for one reply is never used for a later one. At the end of a message the modifications are flushed before the reply, a quarantine is in the same write before it, and the message is reported as processed afterwards. After each write exactly one timer with the context's timeout waits for the MTA, and when it fires the timeout is signalled and the session shut down; failed writes are reported.",
 over=["histories", "inputs", "fault_sequences"], text="every response signal with every status, with and without a reply text, quarantine, pending timer, failing write and failing flush",
 why="Tests use a few statuses per command, and no write failures; a stale reply text needs a previous command that set it.",
 files=[CC], mech=[("default response handlers", CC + ": *_response, reply, reply_on_end_of_message"), ("reply text", CC + ": milter_client_context_set_reply, milter_client_context_format_reply")],
 state=[("status", "the last status answered", CC), ("reply code, extended code and message", "the text of the next failure reply", CC)],
 observe=["packets written to the MTA", "milter_client_context_get_status and _get_state"],
 technique="abstract interpretation of every default response handler for every status; packets, order, state and timer on every path compared with the status table",
 note="The syntax check of extended reply codes is not covered; that the encoders build the right bytes is C03."),
dict(id="C07", title="Modifications need the end of message and a negotiated action",
 statement="Adding, inserting, changing or deleting a header, changing the sender, adding or deleting a recipient and replacing the body are accepted only in the end-of-message state, when the negotiated options include that modification's action, and with the required arguments given (and addresses not empty); otherwise nothing is sent, FALSE is returned and an error is set. When accepted, exactly that modification's packet with its arguments (for a body, as many packets as needed, covering it completely in order) is put at the end of the buffer; the buffer is sent when over its limit; a flush writes all of it once, empties it, and then flushes what was written.",
 over=["histories", "inputs"], text="every modification function in every state, every set of granted actions, absent, empty and given arguments, bodies of any length",
 why="The states, action flags, argument combinations and body lengths (several packets only above 65535 bytes) are too many to sample.",
 files=[CC], mech=[("modification functions", CC), ("modification buffer", CC + ": write_packet_on_end_of_message, flush")],
 state=[("buffered packets", "modifications accepted but not yet written", CC), ("option", "the negotiated actions", CC)],
 observe=["result and GError of the modification functions", "bytes sent at the end of a message"],
 technique="abstract interpretation of every public modification function over states, action flags and argument shapes; the body loop is decided with a symbolic amount already sent",
 note="Progress and quarantine requests carry no state check in this API and are not covered."),
dict(id="C18", title="Each milter reply has exactly its own effect, only where it is allowed",
 statement="For every reply packet of a milter, in every state of the server context: a reply which the protocol doesn't allow in that state raises an error and nothing else is told; after QUIT nothing is told; otherwise exactly that reply's signal is emitted once with what was received (a body chunk's continue at most once). Final replies stop the waiting timer, modifications leave it alone, progress restarts the end-of-message timer. The recorded status becomes the reply's (4xx codes are temporary failures, others rejects), except that a refused recipient is recorded as refused without changing the session's status. A message result in progress is reported as processed exactly once, after the reply, with the status and state, when the reply ends the message. Agreed options are combined with the offered ones and a newer version is refused.",
 over=["histories", "inputs"], text="all 20 replies in all 16 states, before and after QUIT, timer pending or not, message result present or not, every reply code",
 why="640 combinations of reply, state and QUIT, most of which need a misbehaving milter.",
 files=[SC], mech=[("reply decoder signal handlers", SC + ": decoder_new and the handlers it connects")],
 state=[("status and recipient status", "the outcome recorded", SC), ("timeout id", "the timer waiting for the milter", SC), ("message result", "what is logged about the message", SC)],
 observe=["signals of the server context", "milter_server_context_get_status", "message-processed"],
 technique="abstract interpretation of every connected reply handler for every state and quit flag (helpers inlined); signals, status, timers and results on every path compared with the protocol table",
 note="How many continues a body sent in several packets needs is not covered; handlers are assumed not to change the state before returning."),
dict(id="C19", title="Each command is sent as its own packet, or skipped or stopped as agreed",
 statement="Each function which hands a command to a milter first asks that command's stop signal (with the command's macros selected, for all but HELO); when stopped, nothing is written and it is reported as stopped in its state. A command whose step was negotiated away (DATA also below version 4) isn't written and is answered with continue (skip for a body). While an earlier command is waited for, any command but ABORT and QUIT is refused with an error. Otherwise exactly the command's packet with its arguments is written once, preceded by the command's macros, only those asked for when the milter asked for some; the writing timer is armed before, and the state is queued once. A failed write is reported and leaves nothing queued and no timer. When packets were flushed each queued state is entered in order, and the reading or end-of-message timer is armed exactly if a reply was not negotiated away; what is left of a body is sent; QUIT shuts down, ABORT drops the message's data. A timer which expires emits its own signal once and, unless connecting, shuts the connection down.",
 over=["histories", "inputs", "fault_sequences"], text="13 sending functions and 16 flushed states, every relevant step flag set or not, options absent, stop decisions, busy or idle, failing writes, macros absent, filtered or not",
 why="The combinations of negotiated steps, macros requests, pending timers and write failures aren't sampled by the tests.",
 files=[SC], mech=[("sending functions", SC), ("write_packet, prepend_macro", SC), ("flushed", SC + ": flushed, process_next_state")],
 state=[("next states", "packets written but not flushed", SC), ("body", "what is left of the body", SC), ("timeout id", "the timer waiting for the milter", SC)],
 observe=["bytes sent to a milter", "signals of the server context", "return values"],
 technique="abstract interpretation of every sending function, of the flushed hook and of every timer handler over step flags, busy and failure cases; pieces written, timers and queued state compared with the command table",
 note="That filtered macros include every one asked for is not covered; the bytes of the packets are C03."),
dict(id="C17", title="Every command reaches the children and every reply reaches the MTA once",
 statement="The manager hands each command and macro definition of an MTA's session to that session's children exactly once with its arguments, after entering the command's state, and asks the MTA to wait when they accept it; when they refuse it, or there are none, the configured fallback status answers it, unless it was answered while they were asked. A reply of the children is told to the MTA as the response of the command being waited for, with the reply's status (4xx codes as temporary failures, others as rejects, after their text was kept), exactly once, and moves the session on; when nothing is waited for it is reported as an error and the MTA is told nothing. Each modification is passed on with its own arguments to the same function of the MTA's context, and failures are reported. An error of the children as a whole is answered with the fallback status, an error of a single milter isn't. When the client is found gone the status for that is answered and the children are aborted and quit.",
 over=["histories", "inputs", "fault_sequences"], text="15 commands and 20 replies in all 27 states of a session, with and without children, refused or accepted, failing modifications, all reply codes",
 why="Needs every combination of session state, child reply and refusal; most need milters which misbehave or die at a particular command.",
 files=["milter/manager/milter-manager-leader.c", "milter/manager/milter-manager.c"],
 mech=[("command handlers", "milter/manager/milter-manager.c: cb_client_*"), ("children's reply handlers", "milter/manager/milter-manager-leader.c: cb_*, reply, next_state")],
 state=[("leader state", "the command the MTA waits for", "milter/manager/milter-manager-leader.c"), ("end of message sent", "an end of message which came before the reply to the body", "milter/manager/milter-manager-leader.c")],
 observe=["signals of the client context", "commands sent to child milters"],
 technique="abstract interpretation of every handler connected to the client context and to the children (manager and leader inlined) for every state; calls, signals, state and result on every path compared with the table of commands and replies",
 note="Replies after the session quit and to a body already answered are not covered."),
]
