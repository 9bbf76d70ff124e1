------------------------------- MODULE Monitor -------------------------------
(* Design of the monitor-style components of pfi::concurrent (pcbuf, mvar,  *)
(* chan, qsem): one mutex, one condition variable; an operation waits on    *)
(* the condition while it cannot proceed, commits its effect under the lock,*)
(* and notifies everybody after releasing it (an      *)
(* operation of several atomic steps re-enters).  One action per critical      *)
(* section.  Timed operations that time out return without re-testing.      *)
EXTENDS Base
CONSTANTS Thr, MaxOps, Apply(_, _, _), Ops(_), MC0, Inv(_), StepOk(_, _)
VARIABLES s, lock, pc, p, left
mvars == <<s, lock, pc, p, left>>

MInit == /\ s = MC0 /\ lock = 0
         /\ pc = [t \in Thr |-> "idle"]
         /\ p = [t \in Thr |-> Idle]
         /\ left = [t \in Thr |-> MaxOps]

Start(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ \E o \in Ops(t) : p' = [p EXCEPT ![t] = Begin(o[1], o[2], 0, o[3])]
            /\ pc' = [pc EXCEPT ![t] = "lock"]
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ UNCHANGED <<s, lock>>
Acquire(t) == /\ pc[t] \in {"lock", "relock"} /\ lock = 0
              /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "test"]
              /\ UNCHANGED <<s, p, left>>
NoTmo(q) == [q EXCEPT !.tmo = -1]
Commit(t) == /\ pc[t] = "test"
             /\ \E o \in Apply(s, t, NoTmo(p[t])) :
                  /\ s' = o.s
                  /\ p' = [p EXCEPT ![t] = o.p]
             /\ lock' = 0
             /\ pc' = [pc EXCEPT ![t] = "notify"]
             /\ UNCHANGED left
Wait(t) == /\ pc[t] = "test" /\ Apply(s, t, NoTmo(p[t])) = {}
           /\ lock' = 0 /\ pc' = [pc EXCEPT ![t] = "wait"]
           /\ UNCHANGED <<s, p, left>>
Timeout(t) == /\ pc[t] = "wait" /\ p[t].tmo >= 0
              /\ pc' = [pc EXCEPT ![t] = "late"]
              /\ UNCHANGED <<s, lock, p, left>>
GiveUp(t) == /\ pc[t] = "late" /\ lock = 0
             /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ p' = [p EXCEPT ![t] = Idle]
             /\ UNCHANGED <<s, lock, left>>
Spurious(t) == /\ pc[t] = "wait"
               /\ pc' = [pc EXCEPT ![t] = "relock"]
               /\ UNCHANGED <<s, lock, p, left>>
Notify(t) == /\ pc[t] = "notify"
             /\ pc' = [u \in Thr |-> IF u = t THEN (IF p[t].st = "called" THEN "lock" ELSE "idle")
                                     ELSE IF pc[u] = "wait" THEN "relock" ELSE pc[u]]
             /\ p' = [p EXCEPT ![t] = IF @.st = "called" THEN @ ELSE Idle]
             /\ UNCHANGED <<s, lock, left>>
MNext == \E t \in Thr : Start(t) \/ Acquire(t) \/ Commit(t) \/ Wait(t) \/ Timeout(t)
                        \/ GiveUp(t) \/ Spurious(t) \/ Notify(t)
MSpec == MInit /\ [][MNext]_mvars

StateInv == Inv(s)
MutexInv == lock # 0 => pc[lock] = "test"
Steps == [][StepOk(s, s')]_s
\* when every thread is idle or waiting, no waiter could proceed
NoLostWakeup == (\A t \in Thr : pc[t] \in {"idle", "wait"}) =>
                \A t \in Thr : pc[t] = "wait" => Apply(s, t, NoTmo(p[t])) = {}
=============================================================================
