-------------------------------- MODULE Xhtml --------------------------------
(* Rendering of element trees.  A node is <<kind, name or bytes, attributes,   *)
(* children>> with kind 0 text, 1 element, 2 verbatim markup.  The document    *)
(* printed, read by an XML reader (below), is the tree again.                  *)
EXTENDS Str
Ws == {9, 10, 13, 32}
At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Until(_, _, _), While(_, _, _), Unesc(_, _, _)
Until(t, i, S) == IF i > Len(t) THEN i ELSE IF t[i] \in S THEN i ELSE Until(t, i + 1, S)
While(t, i, S) == IF i > Len(t) THEN i ELSE IF t[i] \in S THEN While(t, i + 1, S) ELSE i
Bad == -1
Val(d) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, d)
HexV(c) == IF Digit(c) THEN c - 48 ELSE Lower(c) - 87
HVal(d) == FoldLeft(LAMBDA a, c : a * 16 + HexV(c), 0, d)
\* the character an entity reference stands for
Ent(n) == CASE n = <<97, 109, 112>> -> 38 [] n = <<108, 116>> -> 60 [] n = <<103, 116>> -> 62
            [] n = <<113, 117, 111, 116>> -> 34 [] n = <<97, 112, 111, 115>> -> 39
            [] Len(n) \in 2 .. 6 /\ n[1] = 35 /\ (\A k \in 2 .. Len(n) : Digit(n[k])) -> Val(SubSeq(n, 2, Len(n)))
            [] Len(n) \in 3 .. 6 /\ n[1] = 35 /\ n[2] \in {120, 88} /\ (\A k \in 3 .. Len(n) : Digit(n[k]) \/ (Lower(n[k]) >= 97 /\ Lower(n[k]) <= 102)) -> HVal(SubSeq(n, 3, Len(n)))
            [] OTHER -> Bad
\* character data between i and j with references resolved; <<-1>> if malformed
Unesc(t, i, acc) == IF i > Len(t) THEN acc
                    ELSE IF t[i] # 38 THEN LET e == Until(t, i, {38}) IN Unesc(t, e, acc \o SubSeq(t, i, e - 1))
                    ELSE LET e == Until(t, i, {59}) c == IF e > Len(t) THEN Bad ELSE Ent(SubSeq(t, i + 1, e - 1)) IN
                         IF c = Bad THEN <<Bad>> ELSE Unesc(t, e + 1, Append(acc, c))
Fail == [ok |-> FALSE, n |-> <<>>, p |-> 0]
NameEnd == Ws \cup {60, 62, 47, 61, 34, 39, 38}
RECURSIVE Nodes(_, _, _), Attrs(_, _, _)
Attrs(t, i, acc) ==
  LET j == While(t, i, Ws) IN
  IF At(t, j) \in {62, 47} THEN [ok |-> TRUE, n |-> acc, p |-> j]
  ELSE IF j = i \/ j > Len(t) THEN Fail
  ELSE LET e == Until(t, j, NameEnd) k == SubSeq(t, j, e - 1) IN
       IF e = j THEN Fail
       ELSE IF At(t, e) # 61 THEN Attrs(t, e, Append(acc, <<k, <<>>>>))
       ELSE LET q == At(t, e + 1) c == Until(t, e + 2, {q, 60}) IN
            IF q \notin {34, 39} \/ At(t, c) # q THEN Fail
            ELSE LET v == Unesc(SubSeq(t, e + 2, c - 1), 1, <<>>) IN
                 IF v = <<Bad>> THEN Fail ELSE Attrs(t, c + 1, Append(acc, <<k, v>>))
Elem(t, i) ==      \* t[i] = '<'
  LET e == Until(t, i + 1, NameEnd) name == SubSeq(t, i + 1, e - 1) a == Attrs(t, e, <<>>) IN
  IF e = i + 1 \/ ~a.ok THEN Fail
  ELSE IF At(t, a.p) = 47 THEN (IF At(t, a.p + 1) = 62 THEN [ok |-> TRUE, n |-> <<1, name, a.n, <<>>>>, p |-> a.p + 2] ELSE Fail)
  ELSE LET b == Nodes(t, a.p + 1, <<>>) IN
       IF ~b.ok \/ At(t, b.p) # 60 THEN Fail
       ELSE LET f == Until(t, b.p + 2, NameEnd) g == While(t, f, Ws) IN
            IF SubSeq(t, b.p + 2, f - 1) = name /\ At(t, g) = 62 THEN [ok |-> TRUE, n |-> <<1, name, a.n, b.n>>, p |-> g + 1] ELSE Fail
Nodes(t, i, acc) ==
  IF i > Len(t) \/ (t[i] = 60 /\ At(t, i + 1) = 47) THEN [ok |-> TRUE, n |-> acc, p |-> i]
  ELSE IF t[i] = 60 THEN LET r == Elem(t, i) IN IF r.ok THEN Nodes(t, r.p, Append(acc, r.n)) ELSE Fail
  ELSE LET e == Until(t, i, {60}) v == Unesc(SubSeq(t, i, e - 1), 1, <<>>) IN
       IF v = <<Bad>> THEN Fail ELSE Nodes(t, e, Append(acc, <<0, v, <<>>, <<>>>>))
Read(t) == LET r == Nodes(t, 1, <<>>) IN IF r.ok /\ r.p = Len(t) + 1 THEN [ok |-> TRUE, n |-> r.n] ELSE [ok |-> FALSE, n |-> <<>>]
\* normal form: verbatim markup read, adjacent texts joined, empty texts dropped, attributes as a set
RECURSIVE Norm(_), Join(_, _)
Join(ns, acc) == IF ns = <<>> THEN acc
                 ELSE LET h == ns[1] n == Len(acc) IN
                      IF h[1] = 0 /\ h[2] = <<>> THEN Join(Tail(ns), acc)
                      ELSE IF h[1] = 0 /\ n > 0 /\ acc[Max2(n, 1)][1] = 0
                           THEN Join(Tail(ns), SubSeq(acc, 1, n - 1) \o <<(<<0, acc[n][2] \o h[2], {}, <<>>>>)>>)
                           ELSE Join(Tail(ns), Append(acc, h))
AttrSet(a) == {a[k] : k \in 1 .. Len(a)}
NoDup(a) == \A i, j \in 1 .. Len(a) : i # j => a[i][1] # a[j][1]
Norm(ns) == LET flat == FoldLeft(LAMBDA acc, h : acc \o (IF h[1] = 2 THEN Read(h[2]).n ELSE <<h>>), <<>>, ns)
                m == [k \in 1 .. Len(flat) |-> IF flat[k][1] = 0 THEN <<0, flat[k][2], {}, <<>>>> ELSE <<1, flat[k][2], AttrSet(flat[k][3]), Norm(flat[k][4])>>]
            IN Join(m, <<>>)
RECURSIVE Uniq(_)
Uniq(ns) == \A k \in 1 .. Len(ns) : NoDup(ns[k][3]) /\ Uniq(ns[k][4])
Denotes(text, ns) == LET r == Read(text) IN r.ok /\ Uniq(r.n) /\ Norm(r.n) = Norm(ns)
XhtmlS0(h) == 0
XhtmlStep(s, e) ==
  LET ok == /\ e.x = 0
            /\ CASE e.op = "doc" -> Denotes(e.r[1], e.a[1]) /\ Denotes(e.r[2], e.a[1])
                 [] e.op = "esc" -> /\ Unesc(e.r[1], 1, <<>>) = e.a[1]
                                    /\ \A k \in 1 .. Len(e.r[1]) : e.r[1][k] \notin {60, 62, 34, 39}
  IN IF ok THEN {s} ELSE {}
=============================================================================
