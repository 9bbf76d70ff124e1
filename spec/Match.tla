------------------------------- MODULE Match -------------------------------
(* Single-pattern search (kmp) and multi-pattern search (Aho-Corasick).      *)
EXTENDS Str
MatchS0(h) == 0
Uniq(ws) == {i \in 1 .. Len(ws) : ws[i] # <<>> /\ \A j \in 1 .. i - 1 : ws[j] # ws[i]}
\* <<index from 0, end position>> of every occurrence of every (distinct, non-empty) word
All(ws, t) == UNION {{<<i - 1, p + Len(ws[i]) - 1>> : p \in Occurrences(t, ws[i], 1)} : i \in Uniq(ws)}
\* from: 0-based offset; result 0-based or -1
Find(q, t, from) == IF q = <<>> THEN (IF from <= Len(t) THEN from ELSE -1) ELSE FindFrom(t, q, from + 1) - 1
MatchStep(s, e) ==
  LET ok ==
    CASE e.op = "kmp" -> e.x = 0 /\ e.r = <<Find(e.a[1], e.a[2], e.a[3])>>
      [] e.op = "ac"  -> /\ e.x = 0
                         /\ {e.r[i] : i \in 1 .. Len(e.r)} = All(e.a[1], e.a[2])
                         /\ \A i, j \in 1 .. Len(e.r) : i # j => e.r[i] # e.r[j]
  IN IF ok THEN {s} ELSE {}
=============================================================================
