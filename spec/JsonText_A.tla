---- MODULE JsonText_A ----
(* Canonical printing against the parser: every small value, printed with   *)
(* every spacing, denotes itself; and the specification's parser accepts a   *)
(* text in exactly one way (a proper prefix of a closed value is no value).  *)
EXTENDS JsonText, TLC
Atoms == {None, <<"b", 0>>, <<"b", 1>>, <<"i", 0, <<>>>>, <<"i", 1, <<1, 0>>>>, <<"f", 0, <<5>>, 0>>, <<"f", 1, <<1, 5>>, 1>>,
          <<"s", <<>>>>, <<"s", <<34, 10>>>>, <<"s", <<0, 195, 169>>>>}
Keys == {<<>>, <<97>>}
L1 == Atoms \cup {<<"a", x>> : x \in Strings(Atoms, 2)} \cup {<<"o", <<>>>>} \cup {<<"o", <<(<<k, v>>)>>>> : k \in Keys, v \in Atoms}
         \cup {<<"o", <<(<<(<<>>), v>>), (<<(<<97>>), w>>)>>>> : v \in Atoms, w \in Atoms}
RECURSIVE P(_, _)
HexD(d) == IF d < 10 THEN d + 48 ELSE d + 87
EscC(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c < 32 -> <<92, 117, 48, 48, HexD(c \div 16), HexD(c % 16)>> [] OTHER -> <<c>>
PS(s) == <<34>> \o FoldLeft(LAMBDA a, c : a \o EscC(c), <<>>, s) \o <<34>>
Dg(d) == [k \in 1 .. Len(d) |-> d[k] + 48]
Sgn(n) == IF n = 1 THEN <<45>> ELSE <<>>
P(v, w) ==
  CASE v[1] = "n" -> <<110, 117, 108, 108>> [] v[1] = "b" -> IF v[2] = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
    [] v[1] = "i" -> Sgn(v[2]) \o (IF v[3] = <<>> THEN <<48>> ELSE Dg(v[3]))
    [] v[1] = "f" -> Sgn(v[2]) \o <<48, 46>> \o Dg(v[3]) \o <<101>> \o (IF v[4] < 0 THEN <<45, 48 - v[4]>> ELSE <<48 + v[4]>>)
    [] v[1] = "s" -> PS(v[2])
    [] v[1] = "a" -> <<91>> \o w \o JoinWith([k \in 1 .. Len(v[2]) |-> P(v[2][k], w)], w \o <<44>> \o w) \o w \o <<93>>
    [] v[1] = "o" -> <<123>> \o w \o JoinWith([k \in 1 .. Len(v[2]) |-> PS(v[2][k][1]) \o w \o <<58>> \o w \o P(v[2][k][2], w)], w \o <<44>> \o w) \o w \o <<125>>
VARIABLES v, w, done
Init == v \in L1 /\ w \in {<<>>, <<32>>, <<10, 32>>} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<v, w>>
Spec == Init /\ [][Next]_<<v, w, done>>
Text == P(v, w)
Inv == done =>
       /\ LET d == Docs(w \o Text \o w, 1) IN Len(d) = 2 /\ d[1].t = "ok" /\ d[1].v = v /\ d[2].t = "end"
       /\ Prints(Text, v, FALSE)
       /\ (v[1] \in {"a", "o", "s", "n", "b"}) => \A k \in 1 .. Len(Text) - 1 : Val(SubSeq(Text, 1, k), 1).t # "ok"
       /\ LET d == Docs(Text \o <<32>> \o Text, 1) IN Len(d) = 3 /\ d[1].v = v /\ d[2].v = v /\ d[3].t = "end"
====
