LM = "libmilter/libmilter-compatible.c"
P = [
dict(id="C41", title="Signals carry what they declare and the first decisive handler settles",
 statement="Every signal of every class and interface passes to its handlers exactly the number and types of arguments it declares: the class structure's slot of the same name takes and returns these types, every emission passes values of these types (64-bit sizes as 64-bit values) and a place for the result, and every handler connected to it takes them at their places, with its own data last. For signals with a result, handlers are asked in turn: a status other than default, continue and all options settles a client context's command (NOT_CHANGE keeps the status so far); the first TRUE settles a server context's stop question; the first FALSE settles a connection check.",
 over=["inputs", "configurations"], text="every signal declared in the C sources, every emission and connection, every pair of statuses meeting in an accumulator",
 why="Arguments travel through untyped variadic calls: the compiler accepts a wrong count or width, and the handler reads whatever is in the register; whether it shows depends on the platform, the value and the handler.",
 files=["milter/client/milter-client-context.c", "milter/server/milter-server-context.c", "milter/core/milter-reply-signals.c", "milter/core/milter-command-decoder.c", "milter/core/milter-reader.c", LM],
 mech=[("signal declarations", "every g_signal_new in milter/"), ("emissions and connections", "every g_signal_emit, g_signal_emit_by_name and g_signal_connect in milter/, libmilter/, module/, src/ and tool/"),
       ("accumulators", "milter/client/milter-client-context.c: accumulator of the command signals; milter/server/milter-server-context.c: accumulator of the stop signals")],
 state=[("accumulated status", "return value of a command signal", "milter/client/milter-client-context.c")],
 observe=["arguments and result of a handler connected to a signal"],
 technique="typed query over the clang AST: declared types of all signals against class slots (by record layout), argument types as passed to the variadic emission and handler prototypes; abstract interpretation of the accumulators for every pair of statuses",
 note="Types are compared, not meanings: swapping two strings of an emission is the subject of C04, C16 to C18. A computed signal name is accepted if one of its values fits."),
dict(id="C30", title="The libmilter API maps one to one to a client context's signals and calls",
 statement="A program written for the milter API and linked with this libmilter sees what the API promises. Each xxfi callback is called once for its command with the session's context and exactly what was received (xxfi_body with the last chunk before xxfi_eom, unless it decided; xxfi_abort only in a message; xxfi_close once, releasing the context), and its SMFIS result becomes the status of the same meaning, or default without a callback; options chosen by xxfi_negotiate are taken when it returns SMFIS_CONTINUE. Each smfi_ function does exactly its operation on that session's client context with the given arguments and returns MI_SUCCESS if and only if it succeeded; smfi_setmlreply joins lines of at most 980 bytes without carriage returns by newlines and otherwise sets nothing; macros asked for with smfi_setsymlist join the running negotiation under their stage's command; smfi_main runs a client with the connection, channel, backlog and timeout set before.",
 over=["inputs", "configurations", "fault_sequences"], text="every SMFIS value each callback can return, every command, success and failure of each operation",
 why="The library has its own thin translation layer which the Ruby test-suite does not run at all; a wrong argument or status there changes the verdicts of existing C milters silently.",
 files=[LM], mech=[("handlers of the client context's signals", LM + ": functions connected when a context is attached"), ("operations", LM + ": smfi_* functions"),
  ("status conversion", LM + ": libmilter_compatible_convert_status_to, libmilter_compatible_convert_status_from")],
 state=[("filter_description", "the registered callbacks", LM), ("SmfiContextPrivate", "client context, private data and running macro requests of a session", LM)],
 observe=["arguments of the xxfi callbacks, statuses answered to the MTA, return values of smfi_ functions"],
 technique="abstract interpretation of every connected handler for every result of the program's callback and of every smfi_ function for success and failure, compared with the milter API's table",
 note="xxfi_flags of the description is not covered (the library negotiates all options by default); parsing of the reply code by atoi is taken as given."),
]
