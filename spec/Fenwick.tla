------------------------------ MODULE Fenwick ------------------------------
(* pfi::data::fenwick_tree: an array with prefix and range sums; indices     *)
(* from 0, query(a) sums [0..a], query(a,b) sums [a..b].                     *)
EXTENDS Integers, Sequences, SequencesExt
Sum(v, a, b) == FoldLeft(LAMBDA x, y : x + y, 0, SubSeq(v, a + 1, b + 1))
FenwickS0(h) == [i \in 1 .. h.a[1] |-> 0]
FenwickStep(s, e) ==
  CASE e.op = "inc" -> IF e.x = 0 THEN {[s EXCEPT ![e.a[1] + 1] = @ + e.a[2]]} ELSE {}
    [] e.op = "pre" -> IF e.x = 0 /\ e.r = <<Sum(s, 0, e.a[1])>> THEN {s} ELSE {}
    [] e.op = "rng" -> IF e.x = 0 /\ e.r = <<Sum(s, e.a[1], e.a[2])>> THEN {s} ELSE {}
=============================================================================
