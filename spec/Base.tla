-------------------------------- MODULE Base --------------------------------
(* Pending-operation records shared by the component modules.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Idle == [st |-> "idle"]
\* op name, arguments, time of the call, timeout in microseconds (-1: none)
Begin(op, a, at, tmo) ==
  [st |-> "called", op |-> op, a |-> a, at |-> at, tmo |-> tmo,
   r |-> <<>>, to |-> FALSE, ph |-> 0, late |-> FALSE]
Done(p, r)     == [p EXCEPT !.st = "done", !.r = r]
TimedOut(p, r) == [p EXCEPT !.st = "done", !.r = r, !.to = TRUE]
Bool(b) == IF b THEN 1 ELSE 0
=============================================================================
