-------------------------------- MODULE Mmap --------------------------------
(* Memory-mapped files: mapper objects 1..3 over files 1..3.                  *)
EXTENDS Str
M == 1 .. 3
MmapS0(h) == [f |-> h.a[1], m |-> [k \in M |-> 0]]        \* contents of the files (<<-1>>: absent); file mapped by each object, 0 none
Gone == <<-1>>
View(s, k) == IF s.m[k] = 0 THEN <<0, 0, <<>>>> ELSE <<1, Len(s.f[s.m[k]]), s.f[s.m[k]]>>
Live(s) == Cardinality({k \in M : s.m[k] # 0})
Sees(s, r) == /\ r[1] <= Live(s) /\ r[2] = Live(s) /\ r[3] = 0     \* descriptors, mappings, closes of something not open
              /\ \A k \in M : r[3 + k] = View(s, k)
              /\ \A k \in 1 .. 3 : r[6 + k] = s.f[k]
Put(t, p, v) == [t EXCEPT ![p + 1] = v]
After(s, e) ==
  CASE e.op = "open" -> IF e.r[2] = 1 \/ s.f[e.a[2]] = Gone THEN (IF e.r[1] < 0 THEN {s} ELSE {})
                        ELSE IF s.f[e.a[2]] = <<>> /\ e.r[1] < 0 THEN {s}
                        ELSE IF e.r[1] = 0 THEN {[s EXCEPT !.m[e.a[1]] = e.a[2]]} ELSE {}
    [] e.op = "close" -> {[s EXCEPT !.m[e.a[1]] = 0]}
    [] e.op = "swap" -> {[s EXCEPT !.m[e.a[1]] = s.m[e.a[2]], !.m[e.a[2]] = s.m[e.a[1]]]}
    [] e.op = "move" -> IF e.a[1] = e.a[2] THEN {s} ELSE {[s EXCEPT !.m[e.a[1]] = s.m[e.a[2]], !.m[e.a[2]] = 0]}
    [] e.op = "poke" -> IF s.m[e.a[1]] = 0 \/ s.f[s.m[e.a[1]]] = <<>> THEN {s}
                        ELSE LET f == s.m[e.a[1]] IN {[s EXCEPT !.f[f] = Put(s.f[f], e.a[2] % Len(s.f[f]), e.a[3])]}
    [] e.op = "write" -> IF s.f[e.a[1]] \in {Gone, <<>>} THEN {s}
                         ELSE {[s EXCEPT !.f[e.a[1]] = Put(s.f[e.a[1]], e.a[2] % Len(s.f[e.a[1]]), e.a[3])]}
MmapStep(s, e) == IF e.x # 0 THEN {} ELSE IF e.op = "end" THEN (IF e.r = <<0, 0, 0>> THEN {s} ELSE {}) ELSE {n \in After(s, e) : Sees(n, SubSeq(e.r, 3, Len(e.r)))}
=============================================================================
