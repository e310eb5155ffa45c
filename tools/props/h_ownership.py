P = [
dict(id="C42", title="What is owned is released exactly once",
 statement="What a function makes for itself (strings, lists, tables) it releases or hands on, on every path. What an object owns in a field is released before the field is overwritten, and the field is cleared or replaced when its content was released while the object lives on. Nothing is used, kept, returned or released again after it was released, and a field whose content the object releases only keeps what it owns: a copy, or something it holds a reference to.",
 over=["inputs", "histories", "fault_sequences"], text="every path through every function of the libraries and the manager which makes or releases memory or objects, with every callee failing or not, with logging off and with all of it on",
 why="The manager is a daemon which serves many sessions of many milters in one process: what is released twice or used afterwards crashes all of them, often only in an error or debug path; what isn't released accumulates with every message.",
 files=["milter/", "libmilter/"], mech=[("ownership", "dispose functions, setters and every function which calls a function that makes or releases")],
 state=[("owned fields", "the fields whose content some function of the same object releases", "milter/")], observe=["calls of g_free, g_object_unref and the like, stores to owned fields"],
 technique="path-sensitive abstract interpretation with a typestate (owned, released, referenced) per value: owned fields are discovered from the releases, functions returning what they make from their own analysis; local helpers which aren't right by themselves are judged where they are called",
 note="Reference counts are tracked per function and field, not over several functions; what is stored behind lists, tables and closures is handed over to them. Objects made by constructors are not followed into local variables. The command line tools in tool/ and the Ruby bindings are not analysed."),
]
P += [
dict(id="C34", title="Root's rights are given up completely before anything is run",
 statement="Started by root, the manager serves only after it listened and then dropped its privileges successfully; dropping them succeeds only with the configured group and its groups (if one is configured) and then the effective user taken over, each successfully. The launcher, started before that and only in the privilege mode, never goes on as the manager; it starts exactly the command asked for, only for a user it knows, and the command is never run if changing the group, the groups or the user (in this order) failed. It answers success exactly if the command was started.",
 over=["fault_sequences", "inputs"], text="every path from the start of the manager to serving and from a launch command to the command, with every system call failing or not, and for every configured user and group",
 why="The manager is usually started by root and parses mail from anybody: what keeps root's user or groups because one call failed turns every bug of a milter into a root exploit, and no test run as an ordinary user gets there.",
 files=["milter/manager/milter-manager-process-launcher.c", "milter/manager/milter-manager-main.c", "milter/client/milter-client.c"],
 mech=[("privileges", "setup_child, launch, milter_client_drop_privilege, milter_manager_main")],
 state=[("identity", "real and effective user, group and groups of the process", "milter/")], observe=["calls of setgid, initgroups, setuid, g_spawn_*, milter_client_run and replies to launch commands"],
 technique="path-sensitive abstract interpretation with an event history; the calls, their arguments and their order on every path are compared with what the rights require",
 note="What the kernel's calls do is assumed. Without a configured group the group isn't changed, as documented. A process which isn't root's keeps its rights. The Ruby command line and tools call milter_client_drop_privilege themselves; whether they do isn't decided."),
]
P += [
dict(id="C27", title="Each control command is carried out and answered once, truthfully",
 statement="Every command the manager's control command decoder signals has exactly one handler. set-configuration saves exactly the bytes received, with their length, and reload reloads the configuration: once, before the answer is made, and the answer is success exactly if that succeeded and an error with a message otherwise. get-configuration answers the configuration as XML with its length, get-status the status with its length, and both change nothing. Each command gets exactly one reply, written with the length it was encoded with.",
 over=["inputs", "fault_sequences"], text="every path through every handler of a control command, with saving, reloading and writing failing or not",
 why="An administrator's tool on the control connection has nothing but the reply to know whether the new configuration took effect.",
 files=["milter/manager/milter-manager-controller-context.c", "milter/manager/milter-manager-control-command-decoder.c"],
 mech=[("control", "the cb_decoder_* handlers connected by decoder_new")],
 state=[("configuration", "the manager's configuration", "milter/manager/milter-manager-configuration.c")], observe=["calls of milter_manager_configuration_save_custom/_reload, of the reply encoder and of milter_agent_write_packet"],
 technique="abstract interpretation of the handlers as connected, with an event history per path: operation, its arguments and result, reply and contents, write; compared with the table of commands",
 note="How commands and replies are encoded and decoded is C03 and C04; what saving and reloading do is decided in part by C13 and C26. The stop-child command is declared but never signalled."),
]
P += [
dict(id="C43", title="Data which has a length is handled as bytes of exactly that length",
 statement="Body chunks, packets, replaced bodies, saved configurations and whatever else comes with its length is copied, buffered, written, stored, signalled and handed on as bytes of that length: it is never given to a function which stops at a NUL byte, never handed on with its length off by a constant or without it, and where it is kept, its length is kept with it. No signal which carries data followed by its length copies the data as a string. Every channel made from a connection, pipe or file is read and written without any character encoding.",
 over=["inputs"], text="every content of the data, NUL bytes and invalid UTF-8 included, on every path through every function which gets, reads, makes or keeps counted data",
 why="Mail bodies are binary: a body which is cut at a NUL byte or refused because it isn't UTF-8 passes a virus scanner unseen, and ordinary test messages contain neither.",
 files=["milter/", "libmilter/"], mech=[("bytes", "functions with a pointer and a length among their parameters, g_io_channel_read_chars, the encoders' output"), ("signals", "g_signal_new with data and a length")],
 state=[("counted fields", "chunk and size of pending requests, end_of_message_chunk and its size, strings filled with counted data", "milter/manager/milter-manager-children.c")], observe=["arguments of calls with counted data, declared signals, g_io_channel_set_encoding"],
 technique="path-sensitive abstract interpretation: pairs of pointer and length are discovered from types, and each use of a pointer on each path is compared with its length; lint over the declared signals",
 note="Splitting data into pieces is accepted here; that the pieces are all of it is C18's and C19's. Text decoded from packets (names, headers, addresses) ends at its NUL by the protocol. The Ruby bindings aren't analysed."),
]
P += [
dict(id="C09", title="No timer or watch outlives, doubles or forgets what it works for",
 statement="The id of every event source (timeout, idle, I/O or child watch) whose callback may run again is kept. Where it is kept, no new one is put while the old one may still run, and none stays after the source was removed. When an object is disposed, the sources whose ids it keeps are removed. A callback which ends its own source, while that source is started only if none runs, leaves the field without it.",
 over=["inputs", "histories", "fault_sequences"], text="every path through every function which starts, stops or keeps an event source, every dispose function, and every callback of a guarded source",
 why="A callback which runs for a released session crashes all sessions; a watch which is thought to run is never started again and the session hangs. Both need a particular moment.",
 files=["milter/core/milter-reader.c", "milter/core/milter-writer.c", "milter/client/milter-client.c", "milter/client/milter-client-context.c", "milter/server/milter-server-context.c", "milter/manager/milter-manager.c", "milter/manager/milter-manager-children.c", "milter/manager/milter-manager-process-launcher.c"],
 mech=[("sources", "calls of milter_event_loop_add_*, _watch_* and _remove, and the fields their ids are stored in")],
 state=[("source ids", "the *_id fields discovered from where the ids are stored", "milter/")], observe=["calls of the event loop's functions", "stores to the fields"],
 technique="path-sensitive abstract interpretation with a typestate per event source and field; fields, guards and callbacks are discovered from the code",
 note="That a disposed object's last reference goes only when it should isn't decided here (C42 in part). Stale ids of timeouts which fired are accepted: ids aren't reused, removing one which ended does nothing. Three fields which are set once per run or attempt are exempt from the check for doubling, see ONCE in rules/c09.py. The event loop adapters themselves are not part of it."),
]
P += [
dict(id="C20", title="Every milter is offered the MTA's options, and the answer is made of all replies",
 statement="Each child milter, whenever it gets connected, is offered exactly the steps and actions the MTA offered, in a version the manager speaks, whatever other children replied meanwhile. What the MTA is answered: of the steps that leave replies out, those which the MTA offers and every child wants; none which leave an event out; of the other steps (skip, rejected recipients, leading space) those which the MTA offers and some child requests; the actions offered and asked for; the macros which the children request. The functions of an option (copying, comparing, adding, removing, merging, combining) do so for every combination of flags.",
 over=["inputs", "schedules"], text="every set of flags the MTA and each child may have (bit by bit, every combination), every order of replies, connections retried or late, children which fail",
 why="What was negotiated silently decides which commands a milter sees for the whole session; a milter which connects late or asks for something different from the others is exactly what tests with equal milters don't have.",
 files=["milter/core/milter-option.c", "milter/manager/milter-manager-children.c"],
 mech=[("flags", "milter_option_*, milter_step_flags_merge"), ("offering", "milter_manager_children_negotiate and the callbacks it registers"), ("answering", "the handler of a child's negotiate-reply and everything which emits the coordinator's")],
 state=[("merged option", "option, initial_yes_steps, requested_yes_steps and macros_requests of the coordinator", "milter/manager/milter-manager-children.c")], observe=["options given to milter_server_context_negotiate", "arguments of the coordinator's negotiate-reply signal"],
 technique="abstract interpretation with options as objects; resulting flags are compared as bitwise functions of what was offered and replied by truth table, which is complete because the operations are bitwise",
 note="Replies of a newer version than offered are refused by the server context (C18). That a child asks only for actions the MTA offered isn't enforced by the manager and not claimed. How requests for macros are united is milter_macros_requests_merge's, which isn't looked into. Encoding and decoding is C03, C04 and C19."),
]
P += [
dict(id="C33", title="Timers, idle callbacks and watches keep their contract in both event loops",
 statement="In the GLib and in the libev event loop: what is watched for or waited for is exactly what was asked for (channel and readiness, process, interval, priority in GLib), the callback and its data are the ones given, and the id returned is never 0 nor one in use. A source whose callback returns FALSE, or whose process ended, is removed, one whose callback returns TRUE stays, unless it is removed by its id, and this within its own callback, too. However a libev source ends, it is stopped once, its notification is called once with its data, its channel is released, and nothing of it is used afterwards. Running a loop ends exactly when it was told to quit, nested runs one by one.",
 over=["inputs", "histories"], text="every path through every function of the event loops, every watcher's callback from registration to destruction, every combination of conditions",
 why="Every timeout, retry and connection of every process runs on these few functions; the libev loop is what multi-process managers use and most of the tests don't.",
 files=["milter/core/milter-event-loop.c", "milter/core/milter-glib-event-loop.c", "milter/core/milter-libev-event-loop.c"],
 mech=[("interface", "milter_event_loop_*"), ("GLib", "the class functions of milter-glib-event-loop.c"), ("libev", "the class functions, watchers' callbacks and the table's destructor of milter-libev-event-loop.c")],
 state=[("watchers", "the table of watchers by id", "milter/core/milter-libev-event-loop.c")], observe=["GSources made and attached", "ev_* watchers started and stopped", "calls of the user's callbacks and notifications"],
 technique="abstract interpretation of each adapter function; for libev the state left by a registration is carried into the watcher's callback and into the destructor, with typestate for what was freed or may be gone",
 note="What GLib and libev do with what they are given is assumed. libev reports errors and hang-ups as readiness, so that conditions for errors alone never fire there; priorities have no effect there; a timeout of 0 seconds fires once. Neither is claimed. Custom run and iterate functions replace what is claimed about running."),
]
P += [
dict(id="C22", title="Macros reach every milter they are for and are looked up in order",
 statement="The macros the MTA defines for a command replace the ones it defined for that command before, and are kept under that command until they are replaced or dropped; clearing the message's macros drops those of MAIL up to the end of the message and keeps those of CONNECT and HELO. While a command is processed, a macro has the value of the latest of the commands up to it which defined it; it is found by its name, or, when the name is in braces, without them; nothing looked up before a change is used after it. Each definition is handed, unchanged, to every child the command will be sent to, and the message's only to children which process the message. What each child requests in its negotiation is merged, per command, into the requests of all: every symbol of each, once. Commands and the stages of the protocol's macro requests correspond.",
 over=["inputs", "histories"], text="every path of each function which keeps, looks up, clears or hands on macros; every command as current one, with each combination of all/none/one/all-but-one of the commands having macros; each combination of a child's negotiated, quitted and processing states; merges of up to 2 with up to 3 symbols",
 why="Milters decide by macros (client name, authentication, queue id). A stale or missing macro changes a verdict without any error.",
 files=["milter/core/milter-protocol-agent.c", "milter/core/milter-macros-requests.c", "milter/core/milter-utils.c", "milter/manager/milter-manager-children.c"],
 mech=[("tables", "milter_protocol_agent_set_macro*, _clear_*, _get_*"), ("requests", "milter_macros_requests_merge, _foreach, _set_symbols_string_array"), ("distribution", "milter_manager_children_define_macro; the children's negotiate-reply handler")],
 state=[("macros", "macros, available_macros, macro_context", "milter/core/milter-protocol-agent.c"), ("requests", "symbols_table", "milter/core/milter-macros-requests.c")], observe=["return values", "calls to the children's agents", "contents of tables"],
 technique="abstract interpretation with tables as event logs and lists as chains of nodes; finite enumeration of commands and child states",
 note="Which of them are sent with a command is C19, the packets C03/C04, the handlers on the MTA's side C16, the leader's C17."),
dict(id="C24", title="Every accepted connection is counted, served and finished once, within the limit",
 statement="Where connections are accepted in one process or in several: none is accepted while as many sessions are open as allowed, and while the limit is reached the open ones go on and accepting resumes later; a failing accept() starts nothing and doesn't stop accepting, but when there are no file descriptors left it pauses. Each accepted connection is counted once and gets exactly one session: with a reader and writer on this connection, the client's loop, timeout and buffer size, listed as open before it starts; it is announced if it starts and finished if it doesn't. A session which finished is, at once or by the finisher, taken off the list and the count, counted as finished, and freed once. Shutting down stops accepting, and the loop ends exactly when no session is open. Workers end when their master is gone.",
 over=["inputs", "schedules", "histories", "fault_sequences"], text="every path through the callbacks which accept, the idle callbacks and signal handlers they register, the finishers, shutting down, and forking workers; failing accept(), start and fork",
 why="A count which drifts by one lets a manager refuse everyone or never end; a loop which sleeps while its own sessions are what it waits for hangs all mail.",
 files=["milter/client/milter-client.c"],
 mech=[("accepting", "the callbacks for readability registered under milter_client_run"), ("finishing", "the handler of a context's finished signal, what it schedules, and what that runs for each session"), ("ending", "milter_client_shutdown, the worker's watch on its master's pipe")],
 state=[("counters and lists", "n_processing_sessions, n_processed_sessions, processing_data, finished_data, quitting, the watches' ids", "milter/client/milter-client.c")], observe=["accept()", "contexts made and started", "signals emitted", "milter_event_loop_quit"],
 technique="abstract interpretation of each accepting callback, its state carried into the callbacks it schedules; counters compared before and after, typestate for what was freed",
 note="The multi-thread mode can't be switched on (nothing sets its flag) and isn't analysed. How two threads interleave with MILTER_USE_ACCEPT_LOOP isn't decided. How long a session takes isn't either (C47)."),
dict(id="C10", title="Whoever stops listening to an object stops listening to all of it",
 statement="Wherever the core, the client, the server or the manager takes its signal handlers off an object, it takes off all those it put on it together, with the data they were connected with, and no one else's; and an object kept in a field is released only after all the handlers connected to it on the keeper's behalf are taken off. So no handler is ever called with data whose owner gave the object up.",
 over=["histories", "schedules"], text="every function which connects or disconnects signal handlers, every path through it, by function and data or by id; every release of a field's object which is listened to",
 why="The object often lives longer than its listener: another reference, an idle callback, a child which is still quitting. A handler left on it runs with freed memory when the next signal comes.",
 files=["milter/core/milter-agent.c", "milter/manager/milter-manager-leader.c", "milter/manager/milter-manager-children.c", "milter/manager/milter-manager.c", "milter/client/milter-client.c", "milter/core/milter-syslog-logger.c"],
 mech=[("streams", "milter_agent_set_reader, milter_agent_set_writer"), ("children", "the leader's and the manager's setup and teardown of signals; the children's for each server context"), ("others", "functions which connect and disconnect by id")],
 state=[("handlers", "what each connecting function connects: object, signal, handler, data, the field its id is kept in", "milter/")], observe=["g_signal_connect", "g_signal_handlers_disconnect_by_func", "g_signal_handler_disconnect", "g_object_unref"],
 technique="abstract interpretation of every connecting and disconnecting function; set comparison of what is taken off with what is put on; types of the data from the type-checked syntax tree",
 note="Only where a file both connects and disconnects; an object which dies with its listener needs no disconnection and isn't looked at. The Ruby binding isn't looked at."),
dict(id="C25", title="An agent passes on all it reads and writes and finishes exactly once",
 statement="What an agent's reader reads goes to its decoder as it is, once, and a packet written goes to its writer as it is and is then flushed; a failure is returned with its error, or reported once with its cause. An agent listens to exactly the signals of the reader and the writer it has now and keeps each alive once; one it gave up is no longer listened to, and what is still buffered in the writer is flushed first. Starting needs an event loop and starts each stream once in it. The agent finishes exactly once: when its reader has, after giving it up, or on shutting down without one; shutting down and finishing shut each stream down once, don't enter themselves again, and shutting down works again later. The tag it is given is its streams' too.",
 over=["histories", "fault_sequences", "inputs"], text="every path through the agent's functions and the handlers it connects, with each stream, the loop and the finished flag there or not, and each call to the decoder, writer and flush succeeding or failing",
 why="Both ends of every session are agents. A finish which is lost leaves a session open for ever, one which comes twice ends another's; a stream which is still listened to calls into freed memory.",
 files=["milter/core/milter-agent.c"],
 mech=[("streams", "milter_agent_set_reader, _set_writer and the handlers they connect"), ("writing", "milter_agent_write_packet, milter_agent_flush"), ("life", "milter_agent_start, milter_agent_shutdown, the handler of finished")],
 state=[("streams and flags", "reader, writer, event_loop, tag, finished, shutting_down", "milter/core/milter-agent.c")], observe=["milter_decoder_decode", "milter_writer_write", "signals emitted", "shutdown and start of streams"],
 technique="abstract interpretation of the agent's functions over an enumeration of what it has; event order and counts on every path; handlers found where they are connected",
 note="What the streams themselves do is C35, the decoders C01 and C02, the timers C33; who releases a finished agent is C24."),
dict(id="C32", title="A stream which announced its end isn't touched any more",
 statement="A reader or a writer announces its end at most once on a way through it; from then on, unless it holds a reference on itself, it reads, sets and passes on nothing of its own, since its agent releases it there.",
 over=["histories", "schedules"], text="every path through every function of the reader and the writer, with the functions of the file inlined and logging switched on",
 why="The agent gives a stream up in the handler of its end. A single access afterwards reads or writes freed memory on every closed connection.",
 files=["milter/core/milter-reader.c", "milter/core/milter-writer.c"],
 mech=[("watches", "the callbacks of the streams' watches"), ("ending", "milter_reader_shutdown, milter_writer_shutdown")],
 state=[("the stream itself", "everything in its private data, ids of watches first", "milter/core/milter-reader.c")], observe=["memory of the stream after the end was announced"],
 technique="abstract interpretation with a typestate (kept, announced, gone) for the stream; every load, store and call on a gone one is reported",
 note="Other signals of the streams (flow, error, flushed) may also end a session, but no handler of the agent releases a stream there (C25)."),
]
