------------------------------ MODULE SeqAlg ------------------------------
(* Edit distance, longest common subsequence, longest increasing             *)
(* subsequence (strict).                                                     *)
EXTENDS Str
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Idxs(s) == [k \in 1 .. Len(s) |-> k]
\* one row of the table per element of a; row[j+1] belongs to the first j elements of b
EdRow(prev, c, b) == FoldLeft(LAMBDA row, j :
    Append(row, Mn(prev[j] + Bit(c # b[j]), Mn(prev[j + 1], row[j]) + 1)), <<prev[1] + 1>>, Idxs(b))
Ed(a, b) == LET last == FoldLeft(LAMBDA row, c : EdRow(row, c, b), [j \in 1 .. Len(b) + 1 |-> j - 1], a) IN last[Len(b) + 1]
LcsRow(prev, c, b) == FoldLeft(LAMBDA row, j :
    Append(row, Mx(prev[j] + Bit(c = b[j]), Mx(prev[j + 1], row[j]))), <<0>>, Idxs(b))
Lcs(a, b) == LET last == FoldLeft(LAMBDA row, c : LcsRow(row, c, b), [j \in 1 .. Len(b) + 1 |-> 0], a) IN last[Len(b) + 1]
Lis(a) == LET best == FoldLeft(LAMBDA t, k :
                 Append(t, 1 + MaxOr({t[j] : j \in {i \in 1 .. k - 1 : a[i] < a[k]}}, 0)), <<>>, Idxs(a)) IN
          MaxOr({best[k] : k \in 1 .. Len(a)}, 0)
SeqAlgS0(h) == 0
SeqAlgStep(s, e) ==
  LET want == CASE e.op = "ed" -> Ed(e.a[1], e.a[2]) [] e.op = "lcs" -> Lcs(e.a[1], e.a[2]) [] e.op = "lis" -> Lis(e.a[1]) IN
  IF e.x = 0 /\ e.r = <<want>> THEN {s} ELSE {}
=============================================================================
