P = [
dict(id="C13", title="Failure and error go together, and an error is handled exactly once",
 statement="A function which takes a GError location and says by its result whether it succeeded sets the error exactly if it fails: never a failure without an error, a success with one, or an error over an earlier one (decoders of one packet may leave the error to the base decoder, which then supplies it). Whoever receives an error uses its message or code only where it is certainly set and not yet freed or handed on, and frees it or hands it on, so that no error is lost.",
 over=["inputs", "fault_sequences"], text="every path through every function which takes, makes or receives a GError, with every callee failing or not",
 why="Callers read error->message whenever a function failed: a failure without an error crashes the manager in the very situation the error path exists for; tests rarely reach the failing branch of system calls.",
 files=["milter/"], mech=[("error reporting", "every function of milter/ with a GError ** parameter or a local GError *")],
 state=[("errors", "GError locations", "milter/")], observe=["results and errors of functions; use of error->message"],
 technique="modular path-sensitive abstract interpretation: every function is checked against its error contract with the contracts of its callees assumed; local helpers without a contract of their own are inlined",
 note="Functions outside the repository are assumed to follow the GError convention. Results which are numbers or enum values (not success flags, objects or strings) are exempt; misuse caught by g_return_if_fail too. The command line tools in tool/ are not analysed."),
]
