---- MODULE JsonVal_A ----
(* The shared-node model explored: aliases stay aliases, clones never do;    *)
(* merging leaves its operands alone; casting is idempotent.                 *)
EXTENDS JsonVal, TLC
CONSTANT MaxHeap
VARIABLES st, last
Ev(op, a) == [op |-> op, a |-> a, x |-> 0, r |-> <<>>]
Es == UNION {{Ev("mk", <<i, <<"o", <<>>>>>>), Ev("cp", <<i, 3 - i>>), Ev("clone", <<i, 3 - i>>), Ev("refm", <<i, <<97>>, 3 - i>>),
              Ev("merge", <<i, i, 3 - i>>), Ev("mergew", <<i, 1, 2>>)} \cup {Ev("mk", <<i, <<"b", 1>>>>)} : i \in 1 .. 2}
Reach(h, n) == LET RECURSIVE R(_, _) R(todo, seen) ==
                 IF todo = {} THEN seen
                 ELSE LET x == CHOOSE x \in todo : TRUE
                          ch == IF h[x][1] = "a" THEN {h[x][2][k] : k \in 1 .. Len(h[x][2])} ELSE IF h[x][1] = "o" THEN {h[x][2][k][2] : k \in 1 .. Len(h[x][2])} ELSE {}
                      IN R((todo \cup ch) \ (seen \cup {x}), seen \cup {x})
               IN R({n}, {})
Add == {Ev("setm", <<i, <<98>>, 3 - i>>) : i \in {j \in 1 .. 2 : st.sl[j] \notin Reach(st.h, st.sl[3 - j])}}
Init == st = JsonValS0(0) /\ last = <<"-", 0, st>>
Next == \E e \in Es \cup Add : \E n \in JsonValStep(st, e) : st' = n /\ last' = <<e.op, e.a[1], st>>
Spec == Init /\ [][Next]_<<st, last>>
Lim == Len(st.h) <= MaxHeap
View == st
Inv == /\ \A i \in 1 .. 2 : st.sl[i] \in 1 .. Len(st.h)
       /\ last[1] = "clone" => /\ Tree(st.h, st.sl[1]) = Tree(st.h, st.sl[2])
                               /\ Reach(st.h, st.sl[1]) \cap Reach(st.h, st.sl[2]) = {}
       /\ last[1] \in {"merge", "mergew", "clone", "cp"} =>      \* only the target variable changes, and no existing node
            /\ \A n \in 1 .. Len(last[3].h) : last[3].h[n] = st.h[n]
            /\ st.sl[3 - last[2]] = last[3].sl[3 - last[2]]
       /\ \A i \in 1 .. 2 : st.sl[i] \notin Reach(st.h, st.sl[i]) \ {st.sl[i]}
Types == {<<"int">>, <<"opt", <<"int">>>>, <<"vec", <<"int">>>>, <<"map", <<"int">>>>, <<"st", <<(<<(<<97>>), <<"int">>>>), (<<(<<98>>), <<"opt", <<"bool">>>>>>)>>>>}
Casts == \A T \in Types : LET v == Tree(st.h, st.sl[1]) c == Cast(T, v) IN
           /\ c.t = "ok" => Cast(T, c.v) = c /\ CastD(T, v, Zero(T)) = c.v
           /\ CastD(T, Zero(T), Zero(T)) = Zero(T)
====
