---- MODULE Time_A ----
(* Design checks: the calendar is a bijection day by day and across the hours  *)
(* around the zone changes; rational arithmetic obeys the field laws.          *)
EXTENDS Time, TLC
VARIABLES k, x
Q == {Red(n, d) : n \in -3 .. 3, d \in 1 .. 3}
Init == \/ k = "day" /\ x \in {<<d>> : d \in -30000 .. 60000}
        \/ k = "dst" /\ x \in {<<z, y, h>> : z \in {3, 4}, y \in {1999, 2000, 2024, 2100}, h \in 0 .. 8783}
        \/ k = "rat" /\ x \in Q \X Q \X Q
Next == UNCHANGED <<k, x>>
Spec == Init /\ [][Next]_<<k, x>>
DstOk == LET t == Plus(<<Days(x[2], 1, 1), 1800>>, x[3] * 3600) l == Local(x[1], t) R == Readings(x[1], l) IN
         t \in R /\ \A u \in R : Local(x[1], u) = l
Inv == CASE k = "day" -> LET y == YearOf(x[1]) IN /\ Days(y, 1, 1) <= x[1] /\ x[1] < Days(y + 1, 1, 1)
                                                  /\ Cardinality({m \in 1 .. 12 : LET d == x[1] - Days(y, m, 1) IN d >= 0 /\ d < MLen(y, m)}) = 1
                                                  /\ Wday(x[1] + 7) = Wday(x[1])
         [] k = "dst" -> DstOk
         [] k = "rat" -> /\ Rat(0, x[1], x[2]) = Rat(0, x[2], x[1])
                         /\ Rat(2, x[1], Rat(0, x[2], x[3])) = Rat(0, Rat(2, x[1], x[2]), Rat(2, x[1], x[3]))
                         /\ Rat(1, Rat(0, x[1], x[2]), x[2]) = x[1]
                         /\ x[2][1] # 0 => Rat(3, Rat(2, x[1], x[2]), x[2]) = x[1]
====
