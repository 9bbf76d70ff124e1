------------------------------- MODULE Str -------------------------------
(* Byte / code point strings as sequences of integers.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Bit(b) == IF b THEN 1 ELSE 0
OccursAt(t, p, i) == /\ i >= 1 /\ i + Len(p) - 1 <= Len(t)      \* p at 1-based position i of t
                     /\ \A k \in 1 .. Len(p) : t[i + k - 1] = p[k]
Starts(t, p) == OccursAt(t, p, 1)
Ends(t, p)   == OccursAt(t, p, Len(t) - Len(p) + 1)
MinOr(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y
MaxOr(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x >= y
Occurrences(t, p, from) == {i \in from .. (Len(t) - Len(p) + 1) : OccursAt(t, p, i)}
\* first position >= from, or 0
FindFrom(t, p, from) == MinOr(Occurrences(t, p, from), 0)
\* leftmost non-overlapping occurrences, as a list of positions
RECURSIVE Cuts(_, _, _)
Cuts(t, p, from) == LET i == FindFrom(t, p, from) IN
                    IF i = 0 THEN <<>> ELSE <<i>> \o Cuts(t, p, i + Len(p))
SplitAt(t, p) ==
  LET c == Cuts(t, p, 1) n == Len(c) IN
  [k \in 1 .. n + 1 |-> SubSeq(t, IF k = 1 THEN 1 ELSE c[k - 1] + Len(p), IF k = n + 1 THEN Len(t) ELSE c[k] - 1)]
JoinWith(ss, p) == FoldLeft(LAMBDA acc, k : IF k = 1 THEN ss[1] ELSE acc \o p \o ss[k], <<>>, [k \in 1 .. Len(ss) |-> k])
Blank == {9, 10, 11, 12, 13, 32}
LStrip(t) == SubSeq(t, MinOr({i \in 1 .. Len(t) : t[i] \notin Blank}, Len(t) + 1), Len(t))
RStrip(t) == SubSeq(t, 1, MaxOr({i \in 1 .. Len(t) : t[i] \notin Blank}, 0))
Strip(t)  == LStrip(RStrip(t))
ReplaceIn(t, a, b) == IF a = <<>> THEN t ELSE JoinWith(SplitAt(t, a), b)
Digit(c) == c >= 48 /\ c <= 57
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Strings(A, n) == UNION {[1 .. k -> A] : k \in 0 .. n}
=============================================================================
