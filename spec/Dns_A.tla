------------------------------- MODULE Dns_A -------------------------------
(* The design, with threads looking names up at once while time passes: the    *)
(* cache never exceeds its capacity, and what a lookup returns was resolved for *)
(* its key either by itself or less than a lifetime before it began.           *)
EXTENDS Dns
CONSTANTS Threads, Keys, Cap, Life, MaxTime, MaxRes
VARIABLES c, now, th, made, nres, ok
vars == <<c, now, th, made, nres, ok>>
Idle == [st |-> "idle"]
Init == c = <<>> /\ now = 0 /\ th = [t \in Threads |-> Idle] /\ made = <<>> /\ nres = 0 /\ ok = TRUE
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<c, th, made, nres, ok>>
Call(t) == /\ th[t].st = "idle" /\ \E k \in Keys : th' = [th EXCEPT ![t] = [st |-> "called", key |-> k, cur |-> now]]
           /\ UNCHANGED <<c, now, made, nres, ok>>
LookA(t) == /\ th[t].st = "called"
            /\ LET p == th[t] r == Look(c, p.key, p.cur, Life) IN
               /\ c' = r.c
               /\ IF r.hit THEN /\ th' = [th EXCEPT ![t] = Idle]
                                /\ ok' = (ok /\ made[r.id].key = p.key /\ p.cur - made[r.id].at < Life)
                  ELSE th' = [th EXCEPT ![t] = [p EXCEPT !.st = "miss"]] /\ ok' = ok
            /\ UNCHANGED <<now, made, nres>>
Res(t) == /\ th[t].st = "miss" /\ nres < MaxRes
          /\ nres' = nres + 1 /\ made' = Append(made, [key |-> th[t].key, at |-> th[t].cur])
          /\ th' = [th EXCEPT ![t] = [st |-> "got", key |-> th[t].key, cur |-> th[t].cur, id |-> nres + 1]]
          /\ UNCHANGED <<c, now, ok>>
KeepA(t) == /\ th[t].st = "got"
            /\ \E d \in Keep(c, th[t].key, th[t].id, th[t].cur, th[t].cur, Cap) : c' = d
            /\ th' = [th EXCEPT ![t] = Idle] /\ UNCHANGED <<now, made, nres, ok>>
Del(t) == th[t].st = "idle" /\ (\E k \in Keys : c' = Drop(c, {k})) /\ UNCHANGED <<now, th, made, nres, ok>>
Next == Tick \/ \E t \in Threads : Call(t) \/ LookA(t) \/ Res(t) \/ KeepA(t) \/ Del(t)
Spec == Init /\ [][Next]_vars
Inv == /\ ok
       /\ Cardinality(DOMAIN c) <= Cap
       /\ \A k \in DOMAIN c : made[c[k].id].key = k /\ c[k].used >= c[k].made - MaxTime
=============================================================================
