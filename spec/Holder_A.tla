---- MODULE Holder_A ----
(* The specification driven by every short call sequence: an object stays      *)
(* alive exactly while owned, is never owned by two kinds of owner, weak        *)
(* pointers never keep anything alive.                                          *)
EXTENDS Holder, TLC
VARIABLES st, n
Ev(op, a) == {[op |-> op, a |-> x, r |-> <<1>>, x |-> 0] : x \in a}
K == 1 .. 2
P2 == K \X K
Evs == UNION {Ev(op, P2) : op \in {"oassign", "oswap", "aassign", "aswap", "sassign", "sswap", "wset", "wassign", "wlock", "pswap", "sself"}}
       \cup UNION {Ev(op, {<<k, 5>> : k \in K}) : op \in {"oset", "snew", "pnew", "spoke"}}
       \cup UNION {Ev(op, {<<k, 0>> : k \in K}) : op \in {"oreset", "sreset", "preset", "wreset", "areset"}}
       \cup Ev("aset", {<<k, 5, t>> : k \in K, t \in {0, 2}})
Init == st = HolderS0(0) /\ n = 0
Next == n < 4 /\ n' = n + 1 /\ \E e \in Evs : st' \in Do(st, e)
Spec == Init /\ [][Next]_<<st, n>>
Inv == /\ ({st.s[k] : k \in N} \cap {st.p[k] : k \in N}) \subseteq {0}
       /\ \A i \in 1 .. Len(st.v) : Alive(st, i) <=> (Cnt(st, i) > 0 \/ \E k \in N : st.p[k] = i)
       /\ \A j, k \in N : j # k /\ st.p[j] # 0 => st.p[j] # st.p[k]
       /\ Live(st) <= 12
====
