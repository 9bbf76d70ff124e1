---- MODULE SeqAlg_A ----
(* The tables against the definitions: distance as length of a shortest      *)
(* path of single edits, subsequences by enumeration.                        *)
EXTENDS SeqAlg, TLC
CONSTANTS N
A == {1, 2}
T == Strings(A, N)
Subs(s) == {SelectSeq([k \in 1 .. Len(s) |-> <<k, s[k]>>], LAMBDA x : x[1] \in S) : S \in SUBSET (1 .. Len(s))}
Subsequences(s) == {[k \in 1 .. Len(x) |-> x[k][2]] : x \in Subs(s)}
Incr(s) == \A k \in 1 .. Len(s) - 1 : s[k] < s[k + 1]
Edits(s) == {SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)) : k \in 1 .. Len(s)}
       \cup {SubSeq(s, 1, k - 1) \o <<c>> \o SubSeq(s, k + 1, Len(s)) : k \in 1 .. Len(s), c \in A}
       \cup {SubSeq(s, 1, k) \o <<c>> \o SubSeq(s, k + 1, Len(s)) : k \in 0 .. Len(s), c \in A}
VARIABLES a, b, d          \* from a, d edits lead to b (breadth first: d minimal on first visit)
Init == a \in T /\ b = a /\ d = 0
Next == d < N /\ d' = d + 1 /\ b' \in {x \in Edits(b) : Len(x) <= N} /\ a' = a
Spec == Init /\ [][Next]_<<a, b, d>>
Inv == /\ Ed(a, b) <= d
       /\ (Ed(a, b) > 0 => \E x \in Edits(b) : Ed(a, x) = Ed(a, b) - 1)
       /\ (Ed(a, b) = 0 <=> a = b)
       /\ d = 1 => /\ Lcs(a, b) = MaxOr({Len(x) : x \in Subsequences(a) \cap Subsequences(b)}, 0)
                   /\ Lis(a) = MaxOr({Len(x) : x \in {y \in Subsequences(a) : Incr(y)}}, 0)
====
