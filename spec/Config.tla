------------------------------- MODULE Config -------------------------------
(* Configuration files: "[section]", "key = value", "; comment".            *)
EXTENDS Str
LinesOf(t) == LET s == SplitAt(t, <<10>>) n == Len(s) IN IF s[n] = <<>> THEN SubSeq(s, 1, n - 1) ELSE s
Pos(t, c) == MinOr({k \in 1 .. Len(t) : t[k] = c}, 0)
Unquote(v) == IF Len(v) >= 2 /\ v[1] = 34 /\ v[Len(v)] = 34 THEN SubSeq(v, 2, Len(v) - 1) ELSE v
\* a line: "skip", "sect" name, "set" key value, "bad"
Line(x) == LET t == LStrip(x) IN
  IF t = <<>> THEN [k |-> "skip", n |-> <<>>, v |-> <<>>]
  ELSE IF t[1] = 59 THEN [k |-> "skip", n |-> <<>>, v |-> <<>>]
  ELSE IF t[1] = 91 THEN
       LET c == Pos(t, 93) IN
       IF c = 0 THEN [k |-> "bad", n |-> <<>>, v |-> <<>>] ELSE IF Strip(SubSeq(t, c + 1, Len(t))) # <<>> THEN [k |-> "bad", n |-> <<>>, v |-> <<>>]
       ELSE [k |-> "sect", n |-> SubSeq(t, 2, c - 1), v |-> <<>>]
  ELSE LET q == Pos(t, 61) IN
       IF q = 0 THEN [k |-> "bad", n |-> <<>>, v |-> <<>>]
       ELSE [k |-> "set", n |-> Strip(SubSeq(t, 1, q - 1)), v |-> Unquote(Strip(SubSeq(t, q + 1, Len(t))))]
\* state of reading: sections (set of <<name, function key -> value>> as a function), current section, bad line or 0
Empty == [x \in {} |-> <<>>]
Sec(d, n) == IF n \in DOMAIN d THEN d[n] ELSE Empty
SetF(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Read(t) ==
  LET ls == LinesOf(t) IN
  FoldLeft(LAMBDA a, i :
             IF a.bad # 0 THEN a
             ELSE LET x == Line(ls[i]) IN
                  CASE x.k = "skip" -> a
                    [] x.k = "bad"  -> [a EXCEPT !.bad = i]
                    [] x.k = "sect" -> [a EXCEPT !.cur = x.n, !.d = SetF(a.d, x.n, Sec(a.d, x.n))]
                    [] x.k = "set"  -> [a EXCEPT !.d = SetF(a.d, a.cur, SetF(Sec(a.d, a.cur), x.n, x.v))],
           [d |-> Empty, cur |-> <<>>, bad |-> 0], [i \in 1 .. Len(ls) |-> i])
ConfigS0(h) == [d |-> Empty]
\* dump: list of <<section, list of <<key, value>> >>
AsFun(l) == [x \in {l[k][1] : k \in 1 .. Len(l)} |-> (CHOOSE k \in 1 .. Len(l) : l[k][1] = x)]
Dumps(d, r) == /\ {r[k][1] : k \in 1 .. Len(r)} = DOMAIN d /\ Cardinality(DOMAIN d) = Len(r)
               /\ \A k \in 1 .. Len(r) : LET f == d[r[k][1]] l == r[k][2] IN
                    /\ {l[j][1] : j \in 1 .. Len(l)} = DOMAIN f /\ Cardinality(DOMAIN f) = Len(l)
                    /\ \A j \in 1 .. Len(l) : f[l[j][1]] = l[j][2]
Get(d, sec, key) == LET f == Sec(d, sec) IN IF key \in DOMAIN f THEN f[key] ELSE <<>>
If(c, n) == IF c THEN {n} ELSE {}
\* x = 1: parse_error, with r = <<line number>>
ConfigStep(s, e) ==
  CASE e.op = "load" -> LET R == Read(e.a[1]) IN
                        IF R.bad # 0 THEN If(e.x = 1 /\ e.r = <<R.bad>>, s) ELSE If(e.x = 0 /\ Dumps(R.d, e.r), [d |-> R.d])
    [] e.op = "dump" -> If(e.x = 0 /\ Dumps(s.d, e.r), s)
    \* access without creating: value ("" if absent), section there?, key there?
    [] e.op \in {"get", "find"} -> If(e.x = 0 /\ e.r = <<Get(s.d, e.a[1], e.a[2]), Bit(e.a[1] \in DOMAIN s.d), Bit(e.a[2] \in DOMAIN Sec(s.d, e.a[1]))>>, s)
    \* access that creates what is absent
    [] e.op = "ref"  -> If(e.x = 0 /\ e.r = <<Get(s.d, e.a[1], e.a[2])>>, [d |-> SetF(s.d, e.a[1], SetF(Sec(s.d, e.a[1]), e.a[2], Get(s.d, e.a[1], e.a[2])))])
    [] e.op = "set"  -> If(e.x = 0, [d |-> SetF(s.d, e.a[1], SetF(Sec(s.d, e.a[1]), e.a[2], e.a[3]))])
=============================================================================
