---- MODULE Holder_T ----
EXTENDS Holder, Seq
====
