---- MODULE Numeric_A ----
(* The specification itself: inversion, convolution theorem (length 4, exactly), laws of the products. *)
EXTENDS Numeric, TLC
V == {-2, 0, 1, 3}
S4 == [1 .. 4 -> V]
VARIABLE t
Init == t \in {<<x, y>> : x \in S4, y \in {<<1, 0, -2, 3>>, <<0, 3, 3, 1>>, <<-2, -2, 0, 1>>}}
Spec == Init /\ [][UNCHANGED t]_t
Cx(x) == [i \in 1 .. 4 |-> <<x[i], 0>>]
Inv == LET x == t[1] y == t[2] fx == Dft4(Cx(x), 1) fy == Dft4(Cx(y), 1) a3 == SubSeq(x, 1, 3) b3 == SubSeq(y, 1, 3) IN
       /\ Dft4(fx, -1) = Cx(VMul(4, x))
       /\ Dft4([i \in 1 .. 4 |-> CMul(fx[i], fy[i])], -1) = Cx(VMul(4, Conv(x, y)))
       /\ Dft2(Cx(x), 1, 4, 1) = [i \in 1 .. 4 |-> <<100000 * fx[i][1], 100000 * fx[i][2]>>]
       /\ Conv(x, y) = Conv(y, x) /\ Dot(x, y) = Dot(y, x)
       /\ Dot(Outer(a3, b3), a3) = 0 /\ Dot(Outer(a3, b3), b3) = 0 /\ Outer(a3, a3) = <<0, 0, 0>>
       /\ Dot(Outer(a3, b3), Outer(a3, b3)) = Dot(a3, a3) * Dot(b3, b3) - Dot(a3, b3) * Dot(a3, b3)
       /\ (x = y \/ VLess(x, y) \/ VLess(y, x)) /\ ~(VLess(x, y) /\ VLess(y, x))
====
