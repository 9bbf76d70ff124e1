------------------------------- MODULE Sparse -------------------------------
(* Sparse matrices stored row by row in files.  A matrix is a sequence of rows,*)
(* a row a sequence of <<column, value>> with ascending columns.               *)
EXTENDS Str
Absent == <<(<<(<<-1, -1>>)>>)>>      \* no such file (or an unusable one)
Names == 0 .. 4
SparseS0(h) == [f |-> [n \in Names |-> Absent], w |-> -1, wr |-> <<>>, r |-> FALSE, rr |-> <<>>]
MaxCol(m) == LET S == {m[i][Len(m[i])][1] : i \in {j \in 1 .. Len(m) : m[j] # <<>>}} IN IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x
Has(row, c) == \E k \in 1 .. Len(row) : row[k][1] = c
Val(row, c) == row[CHOOSE k \in 1 .. Len(row) : row[k][1] = c][2]
RECURSIVE ColOf(_, _, _)
ColOf(m, c, i) == IF i > Len(m) THEN <<>> ELSE (IF Has(m[i], c) THEN <<(<<i - 1, Val(m[i], c)>>)>> ELSE <<>>) \o ColOf(m, c, i + 1)
Transpose(m) == [c \in 1 .. MaxCol(m) + 1 |-> ColOf(m, c - 1, 1)]
Close(s) == IF s.w = -1 THEN s ELSE [s EXCEPT !.f[s.w] = s.wr, !.w = -1, !.wr = <<>>]
In(s, i) == i >= 0 /\ i < Len(s.rr)
SparseStep(s, e) ==
  LET is(c, n) == IF c THEN {n} ELSE {} IN
  IF e.x # 0 THEN {}
  ELSE CASE e.op = "wopen" -> LET t == Close(s) IN is(e.r = <<0>>, [t EXCEPT !.w = e.a[1], !.wr = <<>>])
         [] e.op = "wrow" -> IF s.w = -1 THEN {s} ELSE {[s EXCEPT !.wr = Append(s.wr, e.a[1])]}
         [] e.op = "wnum" -> is(e.r = <<Len(s.wr)>>, s)
         [] e.op \in {"wclose", "wdel"} -> {Close(s)}
         [] e.op = "ropen" -> LET m == s.f[e.a[1]] IN
                              IF m = Absent THEN is(e.r = <<-1>>, [s EXCEPT !.r = FALSE, !.rr = <<>>])
                              ELSE is(e.r = <<0>>, [s EXCEPT !.r = TRUE, !.rr = m])
         [] e.op = "rclose" -> {[s EXCEPT !.r = FALSE, !.rr = <<>>]}
         [] e.op = "rnum" -> is(e.r = <<Len(s.rr)>>, s)
         [] e.op = "rsize" -> is(In(s, e.a[1]) => e.r = <<Len(s.rr[e.a[1] + 1]), Len(s.rr[e.a[1] + 1])>>, s)
         [] e.op = "rget" -> is(e.r = (IF In(s, e.a[1]) THEN s.rr[e.a[1] + 1] ELSE <<>>), s)
         \* many or long rows, read back (rows that differ: none), and transposed
         [] e.op = "big" -> LET last == (e.a[2] - 1) * e.a[3] + (IF e.a[1] > 4 THEN 4 ELSE e.a[1] - 1) IN
                            is(e.r \in {<<0, e.a[1], 0>>, <<0, e.a[1], 0, 0, last + 1, 0>>}, [s EXCEPT !.f[3] = Absent, !.f[4] = Absent])
         [] e.op = "count" -> is(TRUE, [s EXCEPT !.f[e.a[1]] = Absent])
         [] e.op = "cut" -> is(TRUE, [s EXCEPT !.f[e.a[1]] = Absent])        \* the offset file lost its end
         [] e.op = "trans" -> IF s.f[e.a[1]] = Absent THEN is(e.r = <<-1>>, s)
                              ELSE is(e.r = <<0>>, [s EXCEPT !.f[e.a[2]] = Transpose(s.f[e.a[1]])])
         [] OTHER -> {}
=============================================================================
