-------------------------------- MODULE Mvar --------------------------------
(* pfi::concurrent::mvar: a one-place synchronising variable.  The content   *)
(* is a sequence of length 0 or 1.                                           *)
EXTENDS Base
MvS0(h) == IF h.full = 1 THEN <<h.v>> ELSE <<>>

MvApply(st, t, p) ==
  CASE p.op = "take" -> IF st = <<>> THEN {} ELSE {[s |-> <<>>, p |-> Done(p, <<st[1]>>)]}
    [] p.op = "put"  -> IF st # <<>> THEN {} ELSE {[s |-> <<p.a[1]>>, p |-> Done(p, <<>>)]}
    [] p.op = "read" -> IF st = <<>> THEN {} ELSE {[s |-> st, p |-> Done(p, <<st[1]>>)]}
    [] p.op = "swap" -> IF st = <<>> THEN {} ELSE {[s |-> <<p.a[1]>>, p |-> Done(p, <<st[1]>>)]}
    [] p.op = "try_take" -> IF st = <<>> THEN {[s |-> st, p |-> Done(p, <<0>>)]}
                            ELSE {[s |-> <<>>, p |-> Done(p, <<1, st[1]>>)]}
    [] p.op = "try_put"  -> IF st # <<>> THEN {[s |-> st, p |-> Done(p, <<0>>)]}
                            ELSE {[s |-> <<p.a[1]>>, p |-> Done(p, <<1>>)]}
    [] p.op = "empty" -> {[s |-> st, p |-> Done(p, <<Bool(st = <<>>)>>)]}

MvMC0 == <<>>
MvOps(t) == {<<"take", <<>>, -1>>, <<"put", <<t>>, -1>>, <<"read", <<>>, -1>>, <<"swap", <<10 + t>>, -1>>,
             <<"try_take", <<>>, -1>>, <<"try_put", <<20 + t>>, -1>>}
MvInv(st) == Len(st) <= 1
\* a value is replaced only through swap, which removes it
MvStep(a, b) == a = b \/ a = <<>> \/ b = <<>> \/ b[1] \in 11 .. 19
=============================================================================
