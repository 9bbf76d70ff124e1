---- MODULE Uri_A ----
(* Composing parts and decomposing the result gives the parts back; coding    *)
(* round-trips and yields only safe characters; IPv6 sample space.            *)
EXTENDS Uri, TLC
VARIABLES st, p
Sch == {<<>>, <<97>>, <<104, 43, 49>>}
Usr == {<<>>, <<117>>, <<117, 58, 37, 52, 48>>}
Hst == {<<>>, <<104>>, <<49, 46, 50>>, <<91, 58, 58, 93>>, <<91, 58, 58, 49, 93>>, <<91, 118, 49, 46, 58, 93>>, <<37, 50, 102>>}
Prt == {<<>>, <<56, 48>>}
Pth == {<<>>, <<47>>, <<47, 97, 58>>, <<47, 47, 64>>, <<47, 37, 51, 70>>}
Qry == {<<>>, <<97, 61, 63, 47>>, <<37, 50, 51>>}
Frg == {<<>>, <<63>>, <<102, 47>>}
Init == \/ st = "p" /\ p \in Sch \X Usr \X Hst \X Prt \X Pth \X Qry \X Frg
        \/ st = "c" /\ p \in Strings({0, 32, 37, 43, 48, 65, 126, 255}, 4)
        \/ st = "6" /\ p \in Strings({48, 58, 46, 102}, 7)
Next == UNCHANGED <<st, p>>
Spec == Init /\ [][Next]_<<st, p>>
Text(q) == (IF q[1] = <<>> THEN <<>> ELSE q[1] \o <<58>>) \o <<47, 47>> \o Authority(q) \o q[5]
           \o (IF q[6] = <<>> THEN <<>> ELSE <<63>> \o q[6]) \o (IF q[7] = <<>> THEN <<>> ELSE <<35>> \o q[7])
\* every well-formed IPv6 text has 2 to 7 colons, no three in a row, and at most one "::"
Sane(t) == V6(t) => /\ Cardinality({k \in 1 .. Len(t) : t[k] = 58}) \in 2 .. 7
                    /\ Occurrences(t, <<58, 58, 58>>, 1) = {}
                    /\ Cardinality(Occurrences(t, <<58, 58>>, 1)) <= 1
Inv == CASE st = "p" -> Parse(Text(p)).ok /\ Parse(Text(p)).parts = p
         [] st = "c" -> IsEncoding(Enc(p), p) /\ (WellCoded(p, 1) \/ \E k \in 1 .. Len(p) : p[k] = 37)
         [] st = "6" -> Sane(p)
====
