---- MODULE Lru_A ----
(* The cache against its meaning: with every operation history kept, the    *)
(* cache holds the Cap most recently used live keys.                        *)
EXTENDS Lru, TLC
CONSTANTS Cap, K, MaxT
VARIABLES q, used, val, t       \* used[k]: time of last use (0: not in cache)
Init == q = <<>> /\ used = [k \in K |-> 0] /\ val = [k \in K |-> 0] /\ t = 0
Evict(u) == LET L == {k \in K : u[k] > 0} IN
  IF Cardinality(L) <= Cap THEN u ELSE [u EXCEPT ![CHOOSE k \in L : \A j \in L : u[k] <= u[j]] = 0]
Next == /\ t < MaxT /\ t' = t + 1
        /\ \E op \in {"get", "set", "touch", "remove", "clear", "index", "assign", "has"}, k \in K :
             LET d == Do(Cap, q, op, k, t + 1) new == used[k] = 0 IN
             /\ q' = d[1]
             /\ used' = CASE op \in {"index", "assign"} -> Evict([used EXCEPT ![k] = t + 1])
                          [] op = "set" -> IF new THEN Evict([used EXCEPT ![k] = t + 1]) ELSE used
                          [] op \in {"get", "touch"} -> IF new THEN used ELSE [used EXCEPT ![k] = t + 1]
                          [] op = "remove" -> [used EXCEPT ![k] = 0]
                          [] op = "clear" -> [j \in K |-> 0]
                          [] OTHER -> used
             /\ val' = CASE op = "assign" -> [val EXCEPT ![k] = t + 1]
                         [] op = "set" /\ new -> [val EXCEPT ![k] = t + 1]
                         [] op = "index" /\ new -> [val EXCEPT ![k] = 0]
                         [] OTHER -> val
Spec == Init /\ [][Next]_<<q, used, val, t>>
Inv == /\ Len(q) <= Cap
       /\ Keys(q) = {k \in K : used[k] > 0}
       /\ \A i, j \in 1 .. Len(q) : i < j => used[q[i][1]] < used[q[j][1]]
       /\ \A i \in 1 .. Len(q) : q[i][2] = val[q[i][1]]
====
