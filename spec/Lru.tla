------------------------------- MODULE Lru -------------------------------
(* pfi::data::lru: s.q is the list of <<key, value>> from least to most     *)
(* recently used, s.n the capacity.                                         *)
EXTENDS Integers, Sequences, FiniteSets
Keys(q) == {q[i][1] : i \in 1 .. Len(q)}
At(q, k) == CHOOSE i \in 1 .. Len(q) : q[i][1] = k
Without(q, k) == SelectSeq(q, LAMBDA x : x[1] # k)
Use(q, k) == IF k \in Keys(q) THEN Append(Without(q, k), q[At(q, k)]) ELSE q
Insert(n, q, k, v) ==
  IF k \in Keys(q) THEN q
  ELSE Append(IF Len(q) >= n THEN SubSeq(q, Len(q) - n + 2, Len(q)) ELSE q, <<k, v>>)
LruS0(h) == [n |-> h.a[1], q |-> <<>>]
\* <<next list, exception, result>>
Do(n, q, op, k, v) ==
  CASE op = "has"    -> <<q, 0, <<IF k \in Keys(q) THEN 1 ELSE 0>> >>
    [] op = "get"    -> IF k \in Keys(q) THEN <<Use(q, k), 0, <<q[At(q, k)][2]>> >> ELSE <<q, 1, <<>> >>
    [] op = "set"    -> <<Insert(n, q, k, v), 0, <<>> >>
    [] op = "touch"  -> <<Use(q, k), 0, <<>> >>
    [] op = "touchn" -> <<Use(q, k), 0, <<>> >>      \* v > 0 times
    [] op = "remove" -> <<Without(q, k), 0, <<>> >>
    [] op = "clear"  -> <<<<>>, 0, <<>> >>
    \* c[k] = v through the reference
    [] op = "index"  -> LET q1 == IF k \in Keys(q) THEN Use(q, k) ELSE Insert(n, q, k, 0) IN
                        <<q1, 0, <<q1[At(q1, k)][2]>> >>
    [] op = "assign" -> LET q1 == IF k \in Keys(q) THEN Use(q, k) ELSE Insert(n, q, k, 0) IN
                        <<[q1 EXCEPT ![At(q1, k)] = <<k, v>>], 0, <<>> >>
    [] op = "keys"   -> <<q, 0, <<Cardinality(Keys(q))>> >>
LruStep(s, e) ==
  LET d == Do(s.n, s.q, e.op, e.a[1], e.a[2]) IN
  IF e.x = d[2] /\ e.r = d[3] THEN {[s EXCEPT !.q = d[1]]} ELSE {}
=============================================================================
