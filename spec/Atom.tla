-------------------------------- MODULE Atom --------------------------------
(* Exhaustive exploration of a component's atomic steps by a few client      *)
(* threads: StateInv holds everywhere, and whenever nothing can move, every   *)
(* blocked client is one the specification lets block (NobodyStuck).          *)
EXTENDS Base
CONSTANTS Thr, MaxOps, Apply(_, _, _), MayBlock(_, _, _), Ops(_, _), MC0, Inv(_)
VARIABLES s, p, left
avars == <<s, p, left>>
AInit == s = MC0 /\ p = [t \in Thr |-> Idle] /\ left = [t \in Thr |-> MaxOps]
Invoke(t) == /\ p[t].st = "idle" /\ left[t] > 0
             /\ \E o \in Ops(s, t) : p' = [p EXCEPT ![t] = Begin(o[1], o[2], 0, o[3])]
             /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED s
Effect(t) == /\ p[t].st = "called"
             /\ \E o \in Apply(s, t, p[t]) : s' = o.s /\ p' = [p EXCEPT ![t] = o.p]
             /\ UNCHANGED left
Return(t) == /\ p[t].st = "done" /\ p' = [p EXCEPT ![t] = Idle] /\ UNCHANGED <<s, left>>
ANext == \E t \in Thr : Invoke(t) \/ Effect(t) \/ Return(t)
ASpec == AInit /\ [][ANext]_avars
StateInv == Inv(s)
NobodyStuck == (\A t \in Thr : p[t].st = "called" => Apply(s, t, p[t]) = {})
                 => \A t \in Thr : p[t].st = "called" => MayBlock(s, t, p[t])
=============================================================================
