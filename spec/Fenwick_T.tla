---- MODULE Fenwick_T ----
EXTENDS Fenwick, Seq
====
