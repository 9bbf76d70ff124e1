-------------------------------- MODULE Chan --------------------------------
(* pfi::concurrent::chan: broadcast channels.  A group of channel ends, each *)
(* with its own FIFO; write appends to every end that exists; dup adds an    *)
(* end that sees later writes only; unget puts a value back at the front.    *)
(* Several independent groups are not needed: ends are numbered 1..N and     *)
(* st.e[i] is <<>> when end i does not exist, else <<queue>>.                *)
(* A write is atomic to the group; because it delivers to the ends one after *)
(* the other, an observer of two ends may see it on one before the other:    *)
(* "write" is therefore a multi-step operation (ph counts deliveries) while  *)
(* the group lock st.w excludes other writes, dups and destructions.         *)
EXTENDS Base
ChS0(h) == [e |-> [i \in 1 .. h.ends |-> IF i <= h.init THEN <<<<>>>> ELSE <<>>], w |-> 0, todo |-> {}]

Ends(st) == {i \in DOMAIN st.e : st.e[i] # <<>>}
PushB(st, i, v) == [st.e EXCEPT ![i] = <<Append(@[1], v)>>]

ChApply(st, t, p) ==
  CASE p.op = "write" ->
         IF st.w = 0 THEN {[s |-> [st EXCEPT !.w = t, !.todo = Ends(st)], p |-> [p EXCEPT !.ph = 1]]}
         ELSE IF st.w # t THEN {}
         ELSE IF st.todo = {} THEN {[s |-> [st EXCEPT !.w = 0], p |-> Done(p, <<>>)]}
         ELSE {[s |-> [st EXCEPT !.e = PushB(st, i, p.a[2]), !.todo = @ \ {i}], p |-> p] : i \in st.todo}
    [] p.op = "read" ->
         LET i == p.a[1] IN
         IF st.e[i][1] = <<>> THEN {}
         ELSE {[s |-> [st EXCEPT !.e[i] = <<Tail(@[1])>>], p |-> Done(p, <<Head(st.e[i][1])>>)]}
    [] p.op = "unget" ->
         {[s |-> [st EXCEPT !.e[p.a[1]] = <<<<p.a[2]>> \o @[1]>>], p |-> Done(p, <<>>)]}
    [] p.op = "size"  -> {[s |-> st, p |-> Done(p, <<Len(st.e[p.a[1]][1])>>)]}
    [] p.op = "empty" -> {[s |-> st, p |-> Done(p, <<Bool(st.e[p.a[1]][1] = <<>>)>>)]}
    [] p.op = "dup"   -> IF st.w # 0 THEN {}
                         ELSE {[s |-> [st EXCEPT !.e[p.a[2]] = <<<<>>>>], p |-> Done(p, <<>>)]}
    [] p.op = "close" -> IF st.w # 0 THEN {}
                         ELSE {[s |-> [st EXCEPT !.e[p.a[1]] = <<>>], p |-> Done(p, <<>>)]}

ChMC0 == [e |-> <<<<<<>>>>, <<<<>>>>>>, w |-> 0, todo |-> {}]
ChOps(t) == {<<"write", <<1, t>>, -1>>, <<"read", <<1>>, -1>>, <<"read", <<2>>, -1>>, <<"unget", <<1, 10 + t>>, -1>>}
ChInv(st) == (st.w = 0 => st.todo = {})
Sub(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* each end changes by: nothing, one element at the back, front removed, front added
ChStep(a, b) == \A i \in DOMAIN a.e :
   LET x == a.e[i][1] y == b.e[i][1] IN
     \/ x = y
     \/ Len(y) = Len(x) + 1 /\ (SubSeq(y, 1, Len(x)) = x \/ Tail(y) = x)
     \/ x # <<>> /\ y = Tail(x)
=============================================================================
