---- MODULE SeqAlg_T ----
EXTENDS SeqAlg, Seq
====
