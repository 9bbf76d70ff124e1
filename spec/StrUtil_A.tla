---- MODULE StrUtil_A ----
(* The equations the specification must satisfy, on all short strings.      *)
EXTENDS StrUtil, TLC
A == {32, 97, 98}
T == Strings(A, 4)
VARIABLE t
Init == t \in T
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
Inv == /\ \A p \in Strings(A, 2) \ {<<>>} :
            LET sp == SplitAt(t, p) IN
            /\ JoinWith(sp, p) = t
            /\ \A k \in 1 .. Len(sp) : Occurrences(sp[k], p, 1) = {}
            /\ (\A k \in 1 .. Len(sp) : FindFrom(sp[k] \o p, p, 1) = Len(sp[k]) + 1 \/ k = Len(sp) \/ Len(p) > 1)
            /\ ReplaceIn(t, p, p) = t
            /\ (Starts(t, p) <=> FindFrom(t, p, 1) = 1)
       /\ Strip(Strip(t)) = Strip(t)
       /\ \E i, j \in 0 .. Len(t) : Strip(t) = SubSeq(t, i + 1, j)
       /\ Strip(t) # <<>> => (Strip(t)[1] \notin Blank /\ Strip(t)[Len(Strip(t))] \notin Blank)
====
