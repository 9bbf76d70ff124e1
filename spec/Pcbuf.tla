------------------------------- MODULE Pcbuf -------------------------------
(* pfi::concurrent::pcbuf: bounded FIFO between any number of threads.      *)
EXTENDS Base

PcS0(h) == [q |-> <<>>, cap |-> h.cap]

Full(st) == Len(st.q) >= st.cap

PcApply(st, t, p) ==
  CASE p.op = "push" ->
         IF ~Full(st) THEN {[s |-> [st EXCEPT !.q = Append(@, p.a[1])], p |-> Done(p, <<1>>)]}
         ELSE IF p.tmo >= 0 THEN {[s |-> st, p |-> TimedOut(p, <<0>>)]} ELSE {}
    [] p.op = "pop" ->
         IF st.q # <<>> THEN {[s |-> [st EXCEPT !.q = Tail(@)], p |-> Done(p, <<1, Head(st.q)>>)]}
         ELSE IF p.tmo >= 0 THEN {[s |-> st, p |-> TimedOut(p, <<0>>)]} ELSE {}
    [] p.op = "size"  -> {[s |-> st, p |-> Done(p, <<Len(st.q)>>)]}
    [] p.op = "empty" -> {[s |-> st, p |-> Done(p, <<IF st.q = <<>> THEN 1 ELSE 0>>)]}
    [] p.op = "cap"   -> {[s |-> st, p |-> Done(p, <<st.cap>>)]}
    [] p.op = "clear" -> {[s |-> [st EXCEPT !.q = <<>>], p |-> Done(p, <<>>)]}

\* --- small instance for the exhaustive design check ---
PcMC0 == [q |-> <<>>, cap |-> 1]
PcOps(t) == {<<"push", <<t>>, -1>>, <<"push", <<t>>, 1>>, <<"pop", <<>>, -1>>,
             <<"pop", <<>>, 1>>, <<"clear", <<>>, -1>>}
PcInv(st) == Len(st.q) <= st.cap
\* every step appends one element, removes the oldest one, or empties
PcStep(a, b) == \/ a = b \/ b.q = <<>>
                \/ Len(b.q) = Len(a.q) + 1 /\ SubSeq(b.q, 1, Len(a.q)) = a.q
                \/ a.q # <<>> /\ b.q = Tail(a.q)
=============================================================================
