-------------------------------- MODULE Seq --------------------------------
(***************************************************************************)
(* Trace validation of sequential histories recorded from the real code.   *)
(* An event is [op, a (arguments), x (0, or the kind of exception), r       *)
(* (results)]; a component module gives                                    *)
(*   S0(h)      the abstract state after the first event h (construction)  *)
(*   Step(s,e)  the set of abstract states the specification allows after   *)
(*              event e in state s; {} means: e is not allowed              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS S0(_), Step(_, _)
VARIABLES tid, l, s

Traces == ndJsonDeserialize(IOEnv.TRACE)
NTr == Len(Traces)
Tr == Traces[tid]
vars == <<tid, l, s>>

SInit == /\ tid \in 1 .. NTr
         /\ l = 2
         /\ s = S0(Traces[tid][1])
SNext == /\ l <= Len(Tr)
         /\ Tr[l].op \notin {"crash", "hang"}
         /\ \E n \in Step(s, Tr[l]) : s' = n
         /\ l' = l + 1
         /\ UNCHANGED tid
SSpec == SInit /\ [][SNext]_vars
Report == l > Len(Tr) => PrintT(<<"OK", tid>>)
=============================================================================
