---- MODULE Bytes_A ----
(* The dotted form determines the address, is accepted as one, and is refused when a part is spoilt. *)
EXTENDS Bytes, TLC
N == {0, 1, 9, 10, 99, 100, 127, 199, 200, 249, 255}
VARIABLE q
Init == q \in {<<a, b, c, d>> : a, b, c, d \in N}
Spec == Init /\ [][UNCHANGED q]_q
Inv == LET t == Dotted(q) IN
       /\ Quad(t) /\ QuadOf(t) = q /\ ~NoAddress(t) /\ Len(t) <= 15
       /\ NoAddress(SubSeq(t, 1, Len(t) - Len(DecOf(q[4])) - 1))
       /\ QuadOf(<<49, 48>> \o t) = IF q[1] < 10 THEN <<100 + q[1], q[2], q[3], q[4]>> ELSE None
       /\ NoAddress(<<Dot>> \o t) /\ NoAddress(<<65>> \o t)
       /\ ~QLess(q, q) /\ (QLess(q, <<100, 99, 10, 9>>) \/ QLess(<<100, 99, 10, 9>>, q) \/ q = <<100, 99, 10, 9>>)
====
