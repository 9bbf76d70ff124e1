------------------------------- MODULE Dns_T -------------------------------
(* Recorded lookups against the cache model: call / res (the resolver was      *)
(* asked; id 0: it failed) / ret events.                                       *)
EXTENDS Dns, Json, IOUtils
VARIABLES tid, l, c, pend
Traces == ndJsonDeserialize(IOEnv.TRACE)
Tr == Traces[tid]
Hdr == Tr[1]
Ev == Tr[l]
vars == <<tid, l, c, pend>>
Idle == [st |-> "idle"]
Sec(w) == (w + Hdr.ep) \div 1000000
Thr == 0 .. Hdr.n
Init == /\ tid \in 1 .. Len(Traces) /\ l = 2 /\ c = <<>>
        /\ pend = [t \in 0 .. Traces[tid][1].n |-> Idle]
Call == /\ l <= Len(Tr) /\ Ev.k = "call" /\ pend[Ev.t].st = "idle"
        /\ pend' = [pend EXCEPT ![Ev.t] = [st |-> "called", op |-> Ev.op, a |-> Ev.a, at |-> Sec(Ev.w), id |-> -1]]
        /\ l' = l + 1 /\ UNCHANGED <<tid, c>>
\* internal steps, taken when an event asks for them
Need == l <= Len(Tr) /\ \/ Ev.k = "ret" /\ pend[Ev.t].st \in {"called", "got"}
                        \/ Ev.k = "res" /\ pend[Ev.t].st = "called"
Inner == /\ Need
         /\ \E t \in Thr :
              \/ /\ pend[t].st = "called" /\ pend[t].op = "resolve"
                 /\ \E cur \in pend[t].at .. Sec(Ev.w) :
                      LET r == Look(c, pend[t].a, cur, Hdr.life) IN
                      c' = r.c /\ pend' = [pend EXCEPT ![t].st = IF r.hit THEN "done" ELSE "miss", ![t].id = r.id]
              \/ /\ pend[t].st = "got"
                 /\ \E m, u \in pend[t].at .. Sec(Ev.w) : m <= u /\ \E d \in Keep(c, pend[t].a, pend[t].id, m, u, Hdr.cap) : c' = d
                 /\ pend' = [pend EXCEPT ![t].st = "done"]
              \/ /\ pend[t].st = "called" /\ pend[t].op = "delete"
                 /\ c' = Drop(c, {pend[t].a}) /\ pend' = [pend EXCEPT ![t].st = "done", ![t].id = 0]
              \/ /\ pend[t].st = "called" /\ pend[t].op = "clear"
                 /\ c' = <<>> /\ pend' = [pend EXCEPT ![t].st = "done", ![t].id = 0]
         /\ UNCHANGED <<tid, l>>
Res == /\ l <= Len(Tr) /\ Ev.k = "res" /\ pend[Ev.t].st = "miss" /\ pend[Ev.t].a = Ev.a
       /\ pend' = [pend EXCEPT ![Ev.t].st = "got", ![Ev.t].id = Ev.id]
       /\ l' = l + 1 /\ UNCHANGED <<tid, c>>
Ret == /\ l <= Len(Tr) /\ Ev.k = "ret" /\ pend[Ev.t].st = "done" /\ Ev.r = <<pend[Ev.t].id>>
       /\ pend' = [pend EXCEPT ![Ev.t] = Idle]
       /\ l' = l + 1 /\ UNCHANGED <<tid, c>>
End == /\ l <= Len(Tr) /\ Ev.k = "end" /\ Ev.b = <<>> /\ \A t \in Thr : pend[t].st = "idle"
       /\ l' = l + 1 /\ UNCHANGED <<tid, c, pend>>
Next == Call \/ Inner \/ Res \/ Ret \/ End
Spec == Init /\ [][Next]_vars
Report == l > Len(Tr) => PrintT(<<"OK", tid>>)
=============================================================================
