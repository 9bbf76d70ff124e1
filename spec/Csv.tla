--------------------------------- MODULE Csv ---------------------------------
(* Comma separated values (RFC 4180; LF or CRLF).  Rows up to the first       *)
(* malformed one are determined; from there on only "no crash, it ends".      *)
EXTENDS Str
At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
\* position after a line end at i, 0 if there is none there
Eol(t, i) == IF At(t, i) = 10 THEN i + 1 ELSE IF At(t, i) = 13 /\ At(t, i + 1) = 10 THEN i + 2 ELSE 0
RECURSIVE Stop(_, _, _)
Stop(t, i, S) == IF i > Len(t) THEN i ELSE IF t[i] \in S THEN i ELSE Stop(t, i + 1, S)    \* first position >= i of a member of S
Cut(v) == SubSeq(v, 1, Stop(v, 1, {0}) - 1)     \* fields are C strings
MarkBad == <<(<<-1>>)>>
FBad == [ok |-> FALSE, v |-> <<>>, p |-> 0]
RECURSIVE Quoted(_, _, _), Rows(_, _), Row(_, _, _)
Quoted(t, i, acc) == IF i > Len(t) THEN FBad
                     ELSE IF t[i] # 34 THEN LET e == Stop(t, i, {34}) IN Quoted(t, e, acc \o SubSeq(t, i, e - 1))
                     ELSE IF At(t, i + 1) = 34 THEN Quoted(t, i + 2, Append(acc, 34))
                     ELSE IF i + 1 > Len(t) \/ At(t, i + 1) = 44 \/ Eol(t, i + 1) # 0 THEN [ok |-> TRUE, v |-> acc, p |-> i + 1]
                     ELSE FBad
Plain(t, i) == LET e == Stop(t, i, {44, 13, 10}) IN
               IF At(t, e) = 13 /\ Eol(t, e) = 0 THEN FBad ELSE [ok |-> TRUE, v |-> SubSeq(t, i, e - 1), p |-> e]
Row(t, i, acc) ==
  LET f == IF At(t, i) = 34 THEN Quoted(t, i + 1, <<>>) ELSE Plain(t, i) IN
  IF ~f.ok THEN FBad
  ELSE LET a == Append(acc, Cut(f.v)) IN
       IF At(t, f.p) = 44 THEN Row(t, f.p + 1, a)
       ELSE [ok |-> TRUE, v |-> a, p |-> IF f.p > Len(t) THEN f.p ELSE Eol(t, f.p)]
\* the rows; ends with MarkBad if a malformed row follows
Rows(t, i) == IF i > Len(t) THEN <<>>
              ELSE LET r == Row(t, i, <<>>) IN IF r.ok THEN <<r.v>> \o Rows(t, r.p) ELSE <<MarkBad>>
CsvS0(h) == 0
CsvStep(s, e) ==
  LET R == Rows(e.a[1], 1) n == Len(R)
      open == n > 0 /\ R[n] = MarkBad
      ok == /\ e.x = 0
            /\ IF open THEN Len(e.r) >= n - 1 /\ SubSeq(e.r, 1, n - 1) = SubSeq(R, 1, n - 1) ELSE e.r = R
  IN IF ok THEN {s} ELSE {}
=============================================================================
