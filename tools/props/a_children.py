CH = "milter/manager/milter-manager-children.c"
P = [
dict(id="C05", title="Children's verdicts for a step fold by precedence whatever their order",
 statement="When several milters answer the same protocol step, the status recorded for that step is the more severe of the recorded one and the new one (discard over reject over temporary failure over continue over skip over accept), so it does not depend on the order in which answers arrive. When the last awaited answer is in, the MTA gets exactly one reply, the recorded status; for message steps the reply comes only when no milter is left to be asked, except for the blocking verdicts.",
 over=["schedules", "histories"], text="every order in which the milters answer, for every protocol step, every verdict, and every verdict already recorded for the step, including a milter that is still catching up when the MTA is at end of message",
 why="The tests drive a few milters with fixed arrival orders through the Ruby bindings; the fold has to hold for all verdict pairs, in all steps and all arrival orders.",
 files=[CH, "milter/core/milter-protocol.c"],
 mech=[("precedence of statuses", "milter/core/milter-protocol.c: milter_status_compare"), ("folding and reply", CH + ": the handlers connected to the verdict signals of a child")],
 state=[("recorded status", "the status folded so far for a protocol step", CH)],
 observe=["the reply the manager sends to the MTA"],
 technique="abstract interpretation of each connected verdict handler over the finite domain step x recorded verdict x new verdict, compared with the precedence table",
 note="Decides the fold, the step it is recorded under, and the reply emitted for all combinations on every path of the handlers; the delivery of the emitted reply is C16/C17's part."),
dict(id="C06", title="A milter in evaluation mode never influences the reply or the message",
 statement="A milter configured for evaluation only can neither change the message (no header, sender, recipient or body modification, no quarantine) nor the reply sent to the MTA: its negative verdicts are recorded as accept at most and its reply text is dropped.",
 over=["histories", "configurations", "inputs"], text="every verdict and every modification request, in every protocol step, with every verdict already recorded",
 why="The evaluation mode tests send single verdicts; the exemption has to hold for each request in each step and on each path.",
 files=[CH], mech=[("evaluation mode tests in the handlers", CH)], observe=["reply and modifications the MTA sees"],
 technique="abstract interpretation of every handler through which a child can answer, with the evaluation flag set; all effects on recorded status, emitted reply and message are collected",
 note="Covers all handlers connected in the child coordinator; a final reply that was due anyway is not attributed to the child."),
dict(id="C08", title="A failing milter gets its fallback status and never stalls the session",
 statement="When a milter times out, reports an error or disconnects while its answer is awaited, its configured fallback status is folded into the status of the running step exactly as if it had answered it; the milter is taken out of the session and is not listened to any more. The session goes on: the MTA gets its reply if nobody else is awaited, or else the next milter is asked.",
 over=["fault_sequences", "histories", "configurations"], text="every failure kind, in every protocol step, with every fallback status, every recorded verdict, with and without other milters pending, in negotiation and while connecting",
 why="Failures at each step times fallback statuses times pending milters are not enumerated by the tests; only a handful of timeouts are tried.",
 files=[CH], mech=[("failure handlers", CH + ": handlers of the timeout, error and finished signals"), ("negotiation fallback", CH + ": handler of the negotiation reply")],
 observe=["reply to the MTA", "the next milter receiving the command"],
 technique="abstract interpretation of each failure handler over step x fallback x recorded verdict x pending, compared with the specification",
 note="Necessary and complete on the handler's own effects (record, dequeue, disconnect, reply or next command); timers that raise the failure are C18's part."),
]
