---- MODULE Sys_A ----
(* The specification itself: decimal figures against numbers; writing into a stream; interrupted calls. *)
EXTENDS Sys, TLC
N == {0, 1, 7, 9, 10, 99, 100, 999, 2048, 99999}
D(n) == IF n = 0 THEN <<>> ELSE LET t == DecOf(n) IN [i \in 1 .. Len(t) |-> t[i] - 48]
B == UNION {[1 .. n -> {0, 1}] : n \in 0 .. 3}
Scr == UNION {[1 .. n -> {<<-1, 1>>, <<-1, 0>>, <<0, 1>>, <<3, 0>>}] : n \in 0 .. 2}
VARIABLE t
Init == t \in {<<"n", x, y>> : x, y \in N} \cup {<<"w", x, y>> : x, y \in B} \cup {<<"i", x, 0>> : x \in Scr}
Spec == Init /\ [][UNCHANGED t]_t
Inv == CASE t[1] = "n" -> /\ AddDec(D(t[2]), D(t[3])) = D(t[2] + t[3]) /\ Times1000(D(t[2])) = D(t[2] * 1000)
                          /\ Free(<< <<Cached, D(t[2]), 0>>, <<MemTotal, D(5), 1>>, <<MemFree, <<0>> \o D(t[3]), 0>> >>) = D(t[2] + t[3])
         [] t[1] = "w" -> \A at \in 0 .. Len(t[2]) : LET z == Write(t[2], at, t[3]) IN
                             /\ SubSeq(z, at + 1, at + Len(t[3])) = t[3] /\ Len(z) >= Len(t[2])
                             /\ \A i \in 1 .. Len(z) : i <= at \/ i > at + Len(t[3]) => z[i] = t[2][i]
         [] t[1] = "i" -> LET u == t[2] \o << <<5, 0>> >> n == Runs(u) IN
                             n \in 1 .. Len(u) /\ (\A i \in 1 .. n - 1 : u[i] = <<-1, 1>>) /\ u[n] # <<-1, 1>>
====
