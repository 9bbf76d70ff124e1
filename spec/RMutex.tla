------------------------------- MODULE RMutex -------------------------------
(* Design of the (recursive) mutex and the condition variable, step by step  *)
(* as the code takes them: an inner lock, the holder and count fields that   *)
(* are read before the inner lock is taken, and a condition wait that clears *)
(* and restores them around the inner wait.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Thr, MaxDepth, MaxWaits
VARIABLES mid, holder, cnt, pc, depth, saved, waits
vars == <<mid, holder, cnt, pc, depth, saved, waits>>
\* depth[t]: how many locks thread t believes to hold (ghost)
Init == /\ mid = 0 /\ holder = 0 /\ cnt = 0
        /\ pc = [t \in Thr |-> "run"] /\ depth = [t \in Thr |-> 0]
        /\ saved = [t \in Thr |-> 0] /\ waits = [t \in Thr |-> 0]
LockSelf(t) == /\ pc[t] = "run" /\ holder = t /\ cnt < MaxDepth
               /\ cnt' = cnt + 1 /\ depth' = [depth EXCEPT ![t] = @ + 1]
               /\ UNCHANGED <<mid, holder, pc, saved, waits>>
LockRead(t) == /\ pc[t] = "run" /\ holder # t
               /\ pc' = [pc EXCEPT ![t] = "want"]
               /\ UNCHANGED <<mid, holder, cnt, depth, saved, waits>>
LockGet(t) == /\ pc[t] = "want" /\ mid = 0 /\ mid' = t
              /\ pc' = [pc EXCEPT ![t] = "got"]
              /\ UNCHANGED <<holder, cnt, depth, saved, waits>>
LockSetC(t) == /\ pc[t] = "got" /\ cnt' = 1 /\ pc' = [pc EXCEPT ![t] = "got2"]
               /\ UNCHANGED <<mid, holder, depth, saved, waits>>
LockSetH(t) == /\ pc[t] = "got2" /\ holder' = t /\ pc' = [pc EXCEPT ![t] = "run"]
               /\ depth' = [depth EXCEPT ![t] = @ + 1]
               /\ UNCHANGED <<mid, cnt, saved, waits>>
UnlockRefused(t) == pc[t] = "run" /\ holder # t /\ UNCHANGED vars
UnlockDec(t) == /\ pc[t] = "run" /\ holder = t
                /\ cnt' = cnt - 1 /\ depth' = [depth EXCEPT ![t] = @ - 1]
                /\ pc' = [pc EXCEPT ![t] = IF cnt = 1 THEN "drop" ELSE "run"]
                /\ UNCHANGED <<mid, holder, saved, waits>>
UnlockH(t) == /\ pc[t] = "drop" /\ holder' = 0 /\ pc' = [pc EXCEPT ![t] = "drop2"]
              /\ UNCHANGED <<mid, cnt, depth, saved, waits>>
UnlockM(t) == /\ pc[t] = "drop2" /\ mid' = 0 /\ pc' = [pc EXCEPT ![t] = "run"]
              /\ UNCHANGED <<holder, cnt, depth, saved, waits>>
WaitSave(t) == /\ pc[t] = "run" /\ holder = t /\ waits[t] < MaxWaits
               /\ waits' = [waits EXCEPT ![t] = @ + 1]
               /\ saved' = [saved EXCEPT ![t] = cnt] /\ pc' = [pc EXCEPT ![t] = "w1"]
               /\ UNCHANGED <<mid, holder, cnt, depth>>
WaitClrH(t) == /\ pc[t] = "w1" /\ holder' = 0 /\ pc' = [pc EXCEPT ![t] = "w2"]
               /\ UNCHANGED <<mid, cnt, depth, saved, waits>>
WaitClrC(t) == /\ pc[t] = "w2" /\ cnt' = 0 /\ pc' = [pc EXCEPT ![t] = "w3"]
               /\ UNCHANGED <<mid, holder, depth, saved, waits>>
WaitRel(t) == /\ pc[t] = "w3" /\ mid' = 0 /\ pc' = [pc EXCEPT ![t] = "waiting"]
              /\ UNCHANGED <<holder, cnt, depth, saved, waits>>
Wake(t) == /\ pc[t] = "waiting" /\ pc' = [pc EXCEPT ![t] = "woken"]     \* notified or timed out
           /\ UNCHANGED <<mid, holder, cnt, depth, saved, waits>>
WaitGet(t) == /\ pc[t] = "woken" /\ mid = 0 /\ mid' = t /\ pc' = [pc EXCEPT ![t] = "w4"]
              /\ UNCHANGED <<holder, cnt, depth, saved, waits>>
WaitResC(t) == /\ pc[t] = "w4" /\ cnt' = saved[t] /\ pc' = [pc EXCEPT ![t] = "w5"]
               /\ UNCHANGED <<mid, holder, depth, saved, waits>>
WaitResH(t) == /\ pc[t] = "w5" /\ holder' = t /\ pc' = [pc EXCEPT ![t] = "run"]
               /\ UNCHANGED <<mid, cnt, depth, saved, waits>>
Next == \E t \in Thr : LockSelf(t) \/ LockRead(t) \/ LockGet(t) \/ LockSetC(t) \/ LockSetH(t)
          \/ UnlockRefused(t) \/ UnlockDec(t) \/ UnlockH(t) \/ UnlockM(t)
          \/ WaitSave(t) \/ WaitClrH(t) \/ WaitClrC(t) \/ WaitRel(t) \/ Wake(t)
          \/ WaitGet(t) \/ WaitResC(t) \/ WaitResH(t)
Spec == Init /\ [][Next]_vars
Holds(t) == pc[t] = "run" /\ depth[t] > 0
Exclusion == \A t, u \in Thr : Holds(t) /\ Holds(u) => t = u
Depth == \A t \in Thr : Holds(t) => mid = t /\ holder = t /\ cnt = depth[t]
NoPhantom == \A t \in Thr : pc[t] = "run" /\ depth[t] = 0 => holder # t
\* somebody is always able to go on: the inner lock never stays taken by an idle thread
Alive == mid # 0 => pc[mid] # "waiting" /\ (pc[mid] = "run" => depth[mid] > 0)
=============================================================================
