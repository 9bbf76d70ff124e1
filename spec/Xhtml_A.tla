---- MODULE Xhtml_A ----
(* A reference renderer, and: whatever the tree, its text denotes it.         *)
EXTENDS Xhtml, TLC
EscC(c) == CASE c = 38 -> <<38, 97, 109, 112, 59>> [] c = 60 -> <<38, 108, 116, 59>> [] c = 62 -> <<38, 103, 116, 59>>
             [] c = 34 -> <<38, 113, 117, 111, 116, 59>> [] c = 39 -> <<38, 35, 48, 51, 57, 59>> [] OTHER -> <<c>>
Esc(s) == FoldLeft(LAMBDA a, c : a \o EscC(c), <<>>, s)
RECURSIVE Out(_)
OutA(a) == FoldLeft(LAMBDA acc, kv : acc \o <<32>> \o kv[1] \o (IF kv[2] = <<>> THEN <<>> ELSE <<61, 34>> \o Esc(kv[2]) \o <<34>>), <<>>, a)
Out(ns) == FoldLeft(LAMBDA acc, n : acc \o (IF n[1] = 0 THEN Esc(n[2]) ELSE IF n[1] = 2 THEN n[2]
              ELSE <<60>> \o n[2] \o OutA(n[3]) \o (IF n[4] = <<>> THEN <<32, 47, 62>> ELSE <<62>> \o Out(n[4]) \o <<60, 47>> \o n[2] \o <<62>>)), <<>>, ns)
Txt == {<<0, s, <<>>, <<>>>> : s \in Strings({97, 60, 38, 34, 59}, 2)}
At0 == {<<>>, <<(<<(<<97>>), (<<34, 62>>)>>)>>, <<(<<(<<97>>), (<<>>)>>), (<<(<<98>>), (<<38, 35>>)>>)>>}
Leaf == {<<1, n, a, <<>>>> : n \in {<<97>>, <<98, 49>>}, a \in At0} \cup Txt
Mid == {<<1, <<97>>, a, k>> : a \in {<<>>}, k \in [1 .. 1 -> Leaf] \cup [1 .. 2 -> Leaf]}
VARIABLE doc
Init == doc \in {<<x>> : x \in Leaf \cup Mid}
Next == Len(doc) < 2 /\ \E x \in Leaf : doc' = Append(doc, x)
Spec == Init /\ [][Next]_doc
Inv == Denotes(Out(doc), doc)
====
