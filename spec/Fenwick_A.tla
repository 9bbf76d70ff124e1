---- MODULE Fenwick_A ----
(* Design check: the binary indexed tree (node k holds the sum of            *)
(* [k AND (k+1) .. k]) answers prefix sums of the array, for every size and  *)
(* every sequence of updates.                                                *)
EXTENDS Fenwick, Bitwise, TLC
CONSTANTS MaxN, MaxUpd
VARIABLES n, arr, tree, cnt
RECURSIVE Up(_, _, _, _), Down(_, _)
Up(t, sz, k, d) == IF k >= sz THEN t ELSE Up([t EXCEPT ![k + 1] = @ + d], sz, k | (k + 1), d)
Down(t, a) == IF a < 0 THEN 0 ELSE t[a + 1] + Down(t, (a & (a + 1)) - 1)
Init == n \in 1 .. MaxN /\ arr = [i \in 1 .. n |-> 0] /\ tree = [i \in 1 .. n |-> 0] /\ cnt = 0
Next == /\ cnt < MaxUpd /\ cnt' = cnt + 1 /\ UNCHANGED n
        /\ \E k \in 0 .. n - 1, d \in {-1, 2} :
             arr' = [arr EXCEPT ![k + 1] = @ + d] /\ tree' = Up(tree, n, k, d)
Spec == Init /\ [][Next]_<<n, arr, tree, cnt>>
Inv == \A a \in -1 .. n - 1 : Down(tree, a) = Sum(arr, 0, a)
====
