-------------------------------- MODULE Lin --------------------------------
(***************************************************************************)
(* Trace validation of concurrent histories recorded from the real code    *)
(* (call / return events, then one "end" event naming the threads that are  *)
(* blocked for ever).  A component module gives                            *)
(*   S0(h)         the initial abstract state of the object (h: header)    *)
(*   Apply(s,t,p)  the set of atomic effects operation p of thread t may    *)
(*                 have in state s; {} means it must wait.  Each element is *)
(*                 [s |-> new state, p |-> new pending record].             *)
(* A history is accepted iff the effects can be placed between call and     *)
(* return so that every result is explained (linearizability), every        *)
(* timeout happened on time, and at the end no thread is blocked in an      *)
(* operation that the abstract object would let proceed (no lost wakeup,    *)
(* no deadlock).                                                            *)
(***************************************************************************)
EXTENDS Base, Json, IOUtils

CONSTANTS S0(_), Apply(_, _, _),
          Final(_),             \* what must hold of the state at the end
          MayBlock(_, _, _)     \* may operation p of t be blocked for ever in state s?

VARIABLES tid, l, s, pend

Called(e) == Begin(e.op, e.a, e.w, e.m)

Traces == ndJsonDeserialize(IOEnv.TRACE)
NTr == Len(Traces)

Tol == 200                        \* microseconds of clock rounding

vars == <<tid, l, s, pend>>
Tr == Traces[tid]
Hdr == Tr[1]
Ev == Tr[l]
Thr == 0 .. Hdr.n

LInit == /\ tid \in 1 .. NTr
         /\ l = 2
         /\ s = S0(Traces[tid][1])
         /\ pend = [t \in 0 .. Traces[tid][1].n |-> Idle]

Call == /\ l <= Len(Tr) /\ Ev.k = "call"
        /\ pend[Ev.t].st = "idle"
        /\ pend' = [pend EXCEPT ![Ev.t] = Called(Ev)]
        /\ l' = l + 1
        /\ UNCHANGED <<tid, s>>

NeedLin == l <= Len(Tr) /\ \/ Ev.k = "ret" /\ pend[Ev.t].st = "called"
                           \/ Ev.k = "end"

Linearize == /\ NeedLin
             /\ \E t \in Thr :
                  /\ pend[t].st = "called"
                  /\ \E o \in Apply(s, t, pend[t]) :
                       \* a step that consumes the timeout itself cannot come before its time
                       /\ (o.p.late /\ ~pend[t].late) =>
                            (Ev.k = "end" \/ Ev.w >= pend[t].at + pend[t].tmo - Tol)
                       /\ s' = o.s
                       /\ pend' = [pend EXCEPT ![t] = o.p]
             /\ UNCHANGED <<tid, l>>

OnTime(p, e) ==
  /\ p.to => e.w - p.at >= p.tmo - Tol
  /\ (Hdr.strict = 1 /\ p.tmo >= 0) => e.w - p.at <= p.tmo + Tol

Ret == /\ l <= Len(Tr) /\ Ev.k = "ret"
       /\ LET p == pend[Ev.t] IN
            /\ p.st = "done"
            /\ p.r = Ev.r
            /\ OnTime(p, Ev)
       /\ pend' = [pend EXCEPT ![Ev.t] = Idle]
       /\ l' = l + 1
       /\ UNCHANGED <<tid, s>>

DefMayBlock(st, t, p) == Apply(st, t, p) = {}

DefFinal(st) == TRUE

End == /\ l <= Len(Tr) /\ Ev.k = "end"
       /\ Final(s)
       /\ \A t \in Thr : pend[t].st # "done"
       /\ {t \in Thr : pend[t].st = "called"} = {Ev.b[i] : i \in 1 .. Len(Ev.b)}
       /\ \A t \in Thr : pend[t].st = "called" => MayBlock(s, t, pend[t])
       /\ l' = l + 1
       /\ UNCHANGED <<tid, s, pend>>

LNext == Call \/ Linearize \/ Ret \/ End
LSpec == LInit /\ [][LNext]_vars

\* Acceptance is reported by printing; a trace that is never printed has no
\* explanation in the specification.
Report == l > Len(Tr) => PrintT(<<"OK", tid>>)
Debug == PrintT(<<"AT", l, s, pend>>)
=============================================================================
