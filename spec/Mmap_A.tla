---- MODULE Mmap_A ----
(* The abstract system driven by every short sequence of calls: a file's bytes *)
(* change only by writes, and the views of objects on one file always agree.   *)
EXTENDS Mmap, TLC
VARIABLES s, n
Ev(op, a, r) == [op |-> op, a |-> a, r |-> r, x |-> 0]
Evs == {Ev("open", <<k, f>>, <<r, q>>) : k \in M, f \in 1 .. 3, r \in {-1, 0}, q \in {0, 1}}
       \cup {Ev(o, <<k, j>>, <<0, 0>>) : o \in {"swap", "move"}, k, j \in M} \cup {Ev("close", <<k>>, <<0, 0>>) : k \in M}
       \cup {Ev("poke", <<k, 1, 9>>, <<0, 0>>) : k \in M} \cup {Ev("write", <<f, 0, 7>>, <<0, 0>>) : f \in 1 .. 3}
Init == s = MmapS0([a |-> <<(<<(<<1, 2>>), (<<>>), Gone>>)>>]) /\ n = 0
Next == n < 5 /\ n' = n + 1 /\ \E e \in Evs : \E t \in After(s, e) :
          /\ s' = t
          /\ Assert(e.op \in {"open", "close", "swap", "move"} => t.f = s.f, "bytes")
          /\ Assert((e.op = "open" /\ e.r[1] < 0) => t = s, "failed open")
Spec == Init /\ [][Next]_<<s, n>>
Inv == \A j, k \in M : s.m[j] = s.m[k] => View(s, j) = View(s, k)
====
