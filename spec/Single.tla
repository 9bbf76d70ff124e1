------------------------------- MODULE Single -------------------------------
(* pfi::lang::singleton: the object is built by the first caller that        *)
(* succeeds, once, whole before anyone sees it; everybody gets that object.  *)
(* The first f attempts to build it fail (throw), and are the caller's to    *)
(* see; later callers try again.                                             *)
EXTENDS Base
SgS0(h) == [f |-> h.f, k |-> 0, o |-> 0]
SgApply(st, t, p) ==
  CASE p.op = "getb" -> {[s |-> st, p |-> Done(p, <<1, 1>>)]}
    [] p.op = "geta" -> IF st.o # 0 THEN {[s |-> st, p |-> Done(p, <<st.o, 1>>)]}
                        ELSE IF st.k < st.f THEN {[s |-> [st EXCEPT !.k = @ + 1], p |-> Done(p, <<-1, 1>>)]}
                        ELSE {[s |-> [st EXCEPT !.k = @ + 1, !.o = st.k + 1], p |-> Done(p, <<st.k + 1, 1>>)]}
SgMC0 == [f |-> 2, k |-> 0, o |-> 0]
SgOps(t) == {<<"geta", <<>>, -1>>, <<"getb", <<>>, -1>>}
\* built at most once, after the failing attempts, and never replaced
SgInv(st) == st.k <= st.f + 1 /\ (st.o # 0 <=> st.k = st.f + 1) /\ (st.o # 0 => st.o = st.f + 1)
SgStep(a, b) == a.o # 0 => b = a
=============================================================================
