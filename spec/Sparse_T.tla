---- MODULE Sparse_T ----
EXTENDS Sparse, Seq
====
