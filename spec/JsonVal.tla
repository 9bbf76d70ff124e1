------------------------------ MODULE JsonVal ------------------------------
(***************************************************************************)
(* JSON values as handles to shared nodes (copying shares, clone copies      *)
(* deeply) and their conversion to and from C++ types.                       *)
(* State: h = heap (sequence of nodes; arrays and objects refer to nodes by  *)
(* number), sl = what the client's variables refer to.                       *)
(***************************************************************************)
EXTENDS JsonText
N == 4
JsonValS0(x) == [h |-> <<None>>, sl |-> [k \in 1 .. N |-> 1]]
RECURSIVE Alloc(_, _), AllocAll(_, _)
\* heap after building tree v; the new node is the last one
Alloc(h, v) ==
  CASE v[1] = "a" -> LET b == AllocAll(h, v[2]) IN Append(b[1], <<"a", b[2]>>)
    [] v[1] = "o" -> LET b == AllocAll(h, [k \in 1 .. Len(v[2]) |-> v[2][k][2]])
                     IN Append(b[1], <<"o", [k \in 1 .. Len(v[2]) |-> <<v[2][k][1], b[2][k]>>]>>)
    [] OTHER -> Append(h, v)
AllocAll(h, vs) == FoldLeft(LAMBDA acc, v : LET g == Alloc(acc[1], v) IN <<g, Append(acc[2], Len(g))>>, <<h, <<>>>>, vs)
RECURSIVE Tree(_, _)
Tree(h, n) == LET v == h[n] IN
  CASE v[1] = "a" -> <<"a", [k \in 1 .. Len(v[2]) |-> Tree(h, v[2][k])]>>
    [] v[1] = "o" -> <<"o", [k \in 1 .. Len(v[2]) |-> <<v[2][k][1], Tree(h, v[2][k][2])>>]>>
    [] OTHER -> v
Mem(ms, k) == SelectSeq(ms, LAMBDA m : m[1] = k)
NodeOf(s, i) == s.h[s.sl[i]]
Is(s, i, t) == NodeOf(s, i)[1] = t
SetNode(s, i, v) == [s EXCEPT !.h[s.sl[i]] = v]
Bind(s, i, n) == [s EXCEPT !.sl[i] = n]
New(s, i, v) == LET g == Alloc(s.h, v) IN [h |-> g, sl |-> [s.sl EXCEPT ![i] = Len(g)]]
\* equality of trees as equals() documents it
BigI(v) == v[1] = "i" /\ Len(v[3]) > 15
RECURSIVE Uncertain(_, _)   \* an integer beyond double precision compared with a float
Uncertain(a, b) == \/ (BigI(a) /\ b[1] = "f") \/ (BigI(b) /\ a[1] = "f")
                   \/ a[1] = "a" /\ b[1] = "a" /\ \E k \in 1 .. Len(a[2]) : k <= Len(b[2]) /\ Uncertain(a[2][k], b[2][k])
                   \/ a[1] = "o" /\ b[1] = "o" /\ \E k \in 1 .. Len(a[2]), j \in 1 .. Len(b[2]) : a[2][k][1] = b[2][j][1] /\ Uncertain(a[2][k][2], b[2][j][2])
---------------------------------------------------------------------------
\* types: <<"int">> <<"long">> <<"dbl">> <<"bool">> <<"str">> <<"json">> <<"vec",T>> <<"map",T>> <<"opt",T>> <<"st", <<(name,T)..>> >>
Good(v) == [t |-> "ok", v |-> v]
Bad(name) == [t |-> "bad", v |-> name]
Loose == [t |-> "any", v |-> None]
RECURSIVE Cast(_, _), CastD(_, _, _), Zero(_)
FirstBad(rs) == LET B == {k \in 1 .. Len(rs) : rs[k].t # "ok"} IN IF B = {} THEN 0 ELSE MinOr(B, 0)
AsDbl(v) == IF v[1] = "f" THEN v ELSE FKey(v, 15)
Cast(T, v) ==
  CASE T[1] \in {"int", "long"} -> IF v[1] # "i" THEN Bad(<<>>) ELSE IF T[1] = "int" /\ Len(v[3]) > 9 THEN Loose ELSE Good(v)
    [] T[1] = "dbl"  -> IF v[1] \notin {"i", "f"} THEN Bad(<<>>) ELSE IF BigI(v) THEN Loose ELSE Good(AsDbl(v))
    [] T[1] = "bool" -> IF v[1] = "b" THEN Good(v) ELSE Bad(<<>>)
    [] T[1] = "str"  -> IF v[1] = "s" THEN Good(v) ELSE Bad(<<>>)
    [] T[1] = "json" -> Good(v)
    [] T[1] = "opt"  -> IF v[1] = "n" THEN Good(v) ELSE Cast(T[2], v)
    [] T[1] = "vec"  -> IF v[1] # "a" THEN Bad(<<>>)
                        ELSE LET rs == [k \in 1 .. Len(v[2]) |-> Cast(T[2], v[2][k])] b == FirstBad(rs)
                             IN IF b # 0 THEN rs[b] ELSE Good(<<"a", [k \in 1 .. Len(rs) |-> rs[k].v]>>)
    [] T[1] = "map"  -> IF v[1] # "o" THEN Bad(<<>>)
                        ELSE LET rs == [k \in 1 .. Len(v[2]) |-> Cast(T[2], v[2][k][2])]
                                 bs == {k \in 1 .. Len(rs) : rs[k].t # "ok"}
                             IN IF \E k \in bs : rs[k].t = "any" THEN Loose      \* (map order is not specified)
                                ELSE IF bs # {} THEN (IF Cardinality(bs) = 1 THEN rs[CHOOSE k \in bs : TRUE] ELSE Bad(<<>>))
                                ELSE Good(<<"o", [k \in 1 .. Len(rs) |-> <<v[2][k][1], rs[k].v>>]>>)
    [] T[1] = "st"   -> IF v[1] # "o" THEN Bad(<<>>)
                        ELSE LET rs == [k \in 1 .. Len(T[2]) |->
                                         LET m == Mem(v[2], T[2][k][1]) IN
                                         IF m # <<>> THEN Cast(T[2][k][2], m[1][2])
                                         ELSE IF T[2][k][2][1] = "opt" THEN Good(None) ELSE Bad(T[2][k][1])]
                                 b == FirstBad(rs)
                             IN IF b # 0 THEN rs[b] ELSE Good(<<"o", [k \in 1 .. Len(rs) |-> <<T[2][k][1], rs[k].v>>]>>)
Zero(T) == CASE T[1] \in {"int", "long"} -> <<"i", 0, <<>>>> [] T[1] = "dbl" -> <<"f", 0, <<>>, 0>> [] T[1] = "bool" -> <<"b", 0>>
             [] T[1] = "str" -> <<"s", <<>>>> [] T[1] \in {"json", "opt"} -> None [] T[1] = "vec" -> <<"a", <<>>>> [] T[1] = "map" -> <<"o", <<>>>>
             [] T[1] = "st" -> <<"o", [k \in 1 .. Len(T[2]) |-> <<T[2][k][1], Zero(T[2][k][2])>>]>>
\* what does not fit keeps its default; d: the default value
CastD(T, v, d) ==
  CASE T[1] \in {"int", "long", "dbl", "bool", "str", "json"} -> LET r == Cast(T, v) IN IF r.t = "ok" THEN r.v ELSE d
    [] T[1] = "opt" -> IF v[1] = "n" THEN None ELSE CastD(T[2], v, IF d[1] = "n" THEN Zero(T[2]) ELSE d)
    [] T[1] = "vec" -> IF v[1] # "a" THEN d
                       ELSE LET n == IF Len(v[2]) > Len(d[2]) THEN Len(v[2]) ELSE Len(d[2])
                                dk(k) == IF k <= Len(d[2]) THEN d[2][k] ELSE Zero(T[2])
                            IN <<"a", [k \in 1 .. n |-> IF k <= Len(v[2]) THEN CastD(T[2], v[2][k], dk(k)) ELSE dk(k)]>>
    [] T[1] = "map" -> IF v[1] # "o" THEN d
                       ELSE <<"o", FoldLeft(LAMBDA acc, m : LET o == Mem(d[2], m[1]) IN
                                              Put(acc, m[1], CastD(T[2], m[2], IF o = <<>> THEN Zero(T[2]) ELSE o[1][2])), d[2], v[2])>>
    [] T[1] = "st"  -> IF v[1] # "o" THEN d
                       ELSE <<"o", [k \in 1 .. Len(T[2]) |->
                                     LET m == Mem(v[2], T[2][k][1]) dv == Mem(d[2], T[2][k][1])[1][2] IN
                                     <<T[2][k][1], IF m = <<>> THEN dv ELSE CastD(T[2][k][2], m[1][2], dv)>>]>>
RECURSIVE HasLoose(_, _)
HasLoose(T, v) ==
  CASE T[1] \in {"int", "dbl"} -> Cast(T, v).t = "any"
    [] T[1] = "opt" -> HasLoose(T[2], v)
    [] T[1] = "vec" -> v[1] = "a" /\ \E k \in 1 .. Len(v[2]) : HasLoose(T[2], v[2][k])
    [] T[1] = "map" -> v[1] = "o" /\ \E k \in 1 .. Len(v[2]) : HasLoose(T[2], v[2][k][2])
    [] T[1] = "st"  -> v[1] = "o" /\ \E k \in 1 .. Len(T[2]), j \in 1 .. Len(v[2]) : v[2][j][1] = T[2][k][1] /\ HasLoose(T[2][k][2], v[2][j][2])
    [] OTHER -> FALSE
HasSub(t, p) == p = <<>> \/ Occurrences(t, p, 1) # {}
---------------------------------------------------------------------------
If(c, n) == IF c THEN {n} ELSE {}
OkR(e, r) == e.x = 0 /\ e.r = r
\* x: 1 = json_bad_cast, 2 = out_of_range, 3 = other
JsonValStep(s, e) ==
  LET i == e.a[1] IN
  CASE e.op = "mk"    -> If(OkR(e, <<>>), New(s, i, e.a[2]))
    [] e.op = "cp"    -> If(OkR(e, <<>>), Bind(s, i, s.sl[e.a[2]]))
    [] e.op = "clone" -> If(OkR(e, <<>>), New(s, i, Tree(s.h, s.sl[e.a[2]])))
    [] e.op = "push"  -> IF ~Is(s, i, "a") THEN If(e.x = 1, s)
                         ELSE If(OkR(e, <<>>), SetNode(s, i, <<"a", Append(NodeOf(s, i)[2], s.sl[e.a[2]])>>))
    [] e.op \in {"addm", "setm"} -> IF ~Is(s, i, "o") THEN If(e.x = 1, s)
                         ELSE If(OkR(e, <<>>), SetNode(s, i, <<"o", Put(NodeOf(s, i)[2], e.a[2], s.sl[e.a[3]])>>))
    [] e.op = "seti"  -> IF ~Is(s, i, "a") THEN If(e.x = 1, s)
                         ELSE If(OkR(e, <<>>), SetNode(s, i, <<"a", [NodeOf(s, i)[2] EXCEPT ![e.a[2] + 1] = s.sl[e.a[3]]]>>))
    [] e.op = "getm"  -> IF ~Is(s, e.a[3], "o") THEN If(e.x = 1, s)
                         ELSE LET m == Mem(NodeOf(s, e.a[3])[2], e.a[2]) IN
                              IF m = <<>> THEN If(e.x = 2, s) ELSE If(OkR(e, <<>>), Bind(s, i, m[1][2]))
    [] e.op = "refm"  -> \* non-const access creates an absent member
                         IF ~Is(s, e.a[3], "o") THEN If(e.x = 1, s)
                         ELSE LET m == Mem(NodeOf(s, e.a[3])[2], e.a[2]) IN
                              IF m # <<>> THEN If(OkR(e, <<>>), Bind(s, i, m[1][2]))
                              ELSE LET g == Append(s.h, None)
                                       s2 == SetNode([s EXCEPT !.h = g], e.a[3], <<"o", Put(NodeOf(s, e.a[3])[2], e.a[2], Len(g))>>)
                                   IN If(OkR(e, <<>>), Bind(s2, i, Len(g)))
    [] e.op = "geti"  -> IF ~Is(s, e.a[3], "a") THEN If(e.x = 1, s)
                         ELSE If(OkR(e, <<>>), Bind(s, i, NodeOf(s, e.a[3])[2][e.a[2] + 1]))
    [] e.op = "count" -> IF ~Is(s, i, "o") THEN If(e.x = 1, s) ELSE If(OkR(e, <<Len(Mem(NodeOf(s, i)[2], e.a[2]))>>), s)
    [] e.op = "size"  -> IF ~Is(s, i, "o") /\ ~Is(s, i, "a") THEN If(e.x = 1, s) ELSE If(OkR(e, <<Len(NodeOf(s, i)[2])>>), s)
    [] e.op = "merge" -> IF ~Is(s, e.a[2], "o") \/ ~Is(s, e.a[3], "o") THEN If(e.x = 1, s)
                         ELSE LET g == Append(s.h, <<"o", FoldLeft(LAMBDA acc, m : Put(acc, m[1], m[2]), NodeOf(s, e.a[2])[2], NodeOf(s, e.a[3])[2])>>)
                              IN If(OkR(e, <<>>), [h |-> g, sl |-> [s.sl EXCEPT ![i] = Len(g)]])
    [] e.op = "mergew" -> \* both: [first, second]
                         IF ~Is(s, e.a[2], "o") \/ ~Is(s, e.a[3], "o") THEN If(e.x = 1, s)
                         ELSE LET step(acc, m) == LET o == Mem(acc[2], m[1]) IN
                                                  IF o = <<>> THEN <<acc[1], Put(acc[2], m[1], m[2])>>
                                                  ELSE LET g == Append(acc[1], <<"a", <<o[1][2], m[2]>>>>) IN <<g, Put(acc[2], m[1], Len(g))>>
                                  f == FoldLeft(step, <<s.h, NodeOf(s, e.a[2])[2]>>, NodeOf(s, e.a[3])[2])
                                  g == Append(f[1], <<"o", f[2]>>)
                              IN If(OkR(e, <<>>), [h |-> g, sl |-> [s.sl EXCEPT ![i] = Len(g)]])
    [] e.op = "eq"    -> LET a == Tree(s.h, s.sl[i]) b == Tree(s.h, s.sl[e.a[2]]) IN
                         If(e.x = 0 /\ (Uncertain(a, b) \/ e.r = <<Bit(Same(a, b, 15)), Bit(a = b), Bit(~Same(a, b, 15))>>), s)
    [] e.op = "dump"  -> If(OkR(e, [k \in 1 .. N |-> Tree(s.h, s.sl[k])]), s)
    [] e.op = "cast"  -> LET c == Cast(e.a[1], e.a[2]) IN
                         If(CASE c.t = "ok" -> OkR(e, <<c.v>>) [] c.t = "bad" -> e.x = 1 /\ HasSub(e.a[3], c.v) [] OTHER -> TRUE, s)
    [] e.op = "castd" -> If(HasLoose(e.a[1], e.a[2]) \/ OkR(e, <<CastD(e.a[1], e.a[2], e.a[3])>>), s)
    \* a C++ value (its tree) to JSON, and back
    [] e.op = "tojson" -> If(OkR(e, <<e.a[2], e.a[2], e.a[2]>>), s)
=============================================================================
