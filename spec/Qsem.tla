-------------------------------- MODULE Qsem --------------------------------
(* pfi::concurrent::qsem: quantity semaphore.                               *)
EXTENDS Base
QsS0(h) == h.q
QsApply(st, t, p) ==
  CASE p.op = "wait"   -> IF st < p.a[1] THEN {} ELSE {[s |-> st - p.a[1], p |-> Done(p, <<1>>)]}
    [] p.op = "signal" -> {[s |-> st + p.a[1], p |-> Done(p, <<1>>)]}
QsMC0 == 2
QsOps(t) == {<<"wait", <<k>>, -1>> : k \in 1 .. 3} \cup {<<"signal", <<k>>, -1>> : k \in 1 .. 2}
QsInv(st) == st >= 0
QsStep(a, b) == a # b
=============================================================================
