---- MODULE Md5_L ----
(* Several threads computing digests at once: each gets that of its own message. *)
EXTENDS Md5, Lin, Base
MdS0(h) == 0
MdApply(st, t, p) == {[s |-> st, p |-> Done(p, Flat(Sum([i \in 1 .. p.a[1] |-> (p.a[2] + 7 * (i - 1)) % 256])))]}
====
