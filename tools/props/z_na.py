def na(id, title, statement, text, why, files, reason):
    return dict(id=id, title=title, statement=statement, over=["inputs"], text=text, why=why, files=files, mech=[("code", ", ".join(files))], state=[], observe=[], technique="", note="", na=reason)
P = [
na("C29", "Connection specifications mean what the documentation says",
   "unix:PATH, inet:PORT[@HOST] and inet6:PORT[@[HOST]] are parsed into exactly the address they denote, and everything else is refused with an error.",
   "every string given as a connection specification", "Tests sample a few dozen strings of an infinite language.", ["milter/core/milter-connection.c"],
   "which language a parser built from strstr, strtol and inet_pton accepts, and which address each string denotes, depends on string contents no sound abstract domain at hand bounds; that parsing stays within its address is decided with C01, that failures have errors with C13"),
na("C45", "ESMTP paths and parameters are split as RFC 5321 says",
   "For every MAIL and RCPT argument the path and the parameters returned are those of the RFC's grammar, and an argument outside of it is refused.",
   "every argument string", "The grammar has nested quoting, source routes and escapes; tests sample it.", ["milter/core/milter-esmtp.c"],
   "equivalence of a hand-written scanner with a grammar is a statement about all strings; a static argument in reach shows that it stays in bounds and reports errors, not which language it accepts"),
na("C46", "Headers are found, inserted, changed and deleted by index like the MTA does it",
   "After any sequence of header operations the manager's list of headers equals the one the MTA gets by applying the same operations.",
   "every list of headers and sequence of operations", "Index arithmetic over repeated names goes wrong only for particular sequences.", ["milter/core/milter-headers.c"],
   "this is equality of two list-valued histories under run-time indices; it needs induction over list contents (a prover) or execution (another family), not a static dataflow fact"),
na("C47", "A session makes progress within its configured timeouts",
   "Each phase of each session ends, with an answer, at the latest when its configured timeout has passed, whatever children and peers do.",
   "every timing of children and peers", "Tests can't wait for, or control, every interleaving of timeouts.", ["milter/server/milter-server-context.c", "milter/manager/milter-manager-children.c"],
   "wall-clock durations are run-time quantities; that a timeout is armed whenever something is awaited and leads to an answer is decided with C18, C19, C08 and C17"),
na("C48", "Ruby configuration files have the effect the documentation describes",
   "Every assignment and block of the configuration language changes exactly the documented property or condition.",
   "every configuration file", "The language is Ruby: any program is a configuration.", ["module/configuration/ruby/milter-manager-ruby-configuration.c"],
   "the configuration is a dynamically evaluated Ruby program with method_missing; its effect isn't statically determined. What the C side does with the values it is given is decided with C26"),
na("C49", "Memory and time per session stay bounded under load",
   "Memory and processing time of the manager grow at most linearly in the open sessions and bytes of their current messages.",
   "every load", "Tests run a handful of sessions.", ["milter/manager/milter-manager.c", "milter/client/milter-client.c"],
   "a statement about run-time quantities (allocation sizes, event-loop fairness); the static part, that whatever is made is released, is decided with C42"),
]
