---- MODULE Sparse_A ----
(* Design checks on all small matrices: transposing twice gives the matrix     *)
(* back up to empty rows at the end, entries move from (i,j) to (j,i).         *)
EXTENDS Sparse, TLC
Cols == 0 .. 2
RowSet == {r \in UNION {[1 .. k -> Cols \X {1, 2}] : k \in 0 .. 3} : \A i, j \in 1 .. Len(r) : i < j => r[i][1] < r[j][1]}
VARIABLE m
Init == m = <<>>
Next == Len(m) < 3 /\ \E r \in RowSet : m' = Append(m, r)
Spec == Init /\ [][Next]_m
RECURSIVE Trim(_)
Trim(x) == IF x = <<>> \/ x[Len(x)] # <<>> THEN x ELSE Trim(SubSeq(x, 1, Len(x) - 1))
Entries(x) == UNION {{<<i - 1, x[i][k][1], x[i][k][2]>> : k \in 1 .. Len(x[i])} : i \in 1 .. Len(x)}
Inv == /\ Transpose(Transpose(m)) = Trim(m)
       /\ Entries(Transpose(m)) = {<<t[2], t[1], t[3]>> : t \in Entries(m)}
====
