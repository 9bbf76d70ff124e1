-------------------------------- MODULE Obs --------------------------------
(***************************************************************************)
(* Validation of recorded concurrent event logs against an observer: the    *)
(* component module gives the state after the header, S0(h), and the set    *)
(* of states Step(s, e, t) allowed after event e (t: the whole trace's      *)
(* header).  A log none of whose steps can be taken is not a behaviour of   *)
(* the specification.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS S0(_), Step(_, _)
VARIABLES tid, l, s

Traces == ndJsonDeserialize(IOEnv.TRACE)
NTr == Len(Traces)
Tr == Traces[tid]
vars == <<tid, l, s>>

SInit == /\ tid \in 1 .. NTr
         /\ l = 2
         /\ s = S0(Traces[tid][1])
SNext == /\ l <= Len(Tr)
         /\ Tr[l].k \notin {"crash", "livelock"}
         /\ \E n \in Step(s, Tr[l]) : s' = n
         /\ l' = l + 1
         /\ UNCHANGED tid
SSpec == SInit /\ [][SNext]_vars
Report == l > Len(Tr) => PrintT(<<"OK", tid>>)
=============================================================================
