---- MODULE Config_A ----
(* Files written line by line: the last assignment wins, sections re-opened   *)
(* continue, a bad line is found at its number.                               *)
EXTENDS Config, TLC
Ls == {<<91, 97, 93>>, <<32, 91, 97, 93, 13>>, <<91, 93>>, <<97, 61, 98>>, <<32, 97, 32, 61, 32, 34, 98, 34, 9>>, <<97, 61>>, <<59, 97>>, <<>>, <<61, 34, 34>>, <<97>>, <<91, 97>>, <<97, 61, 61>>}
VARIABLES t, n, d, cur, bad
Init == t = <<>> /\ n = 0 /\ d = Empty /\ cur = <<>> /\ bad = 0
Next == /\ n < 3
        /\ \E l \in Ls : /\ t' = t \o l \o <<10>> /\ n' = n + 1
             /\ LET x == Line(l) IN
                IF bad # 0 THEN UNCHANGED <<d, cur, bad>>
                ELSE IF x.k = "bad" THEN bad' = n + 1 /\ UNCHANGED <<d, cur>>
                ELSE /\ UNCHANGED bad
                     /\ cur' = IF x.k = "sect" THEN x.n ELSE cur
                     /\ d' = IF x.k = "set" THEN SetF(d, cur, SetF(Sec(d, cur), x.n, x.v)) ELSE IF x.k = "sect" THEN SetF(d, x.n, Sec(d, x.n)) ELSE d
Spec == Init /\ [][Next]_<<t, n, d, cur, bad>>
Inv == LET r == Read(t) IN r.bad = bad /\ (bad = 0 => r.d = d)
====
