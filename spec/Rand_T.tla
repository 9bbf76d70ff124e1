---- MODULE Rand_T ----
EXTENDS Rand, Seq
====
