---- MODULE Lru_T ----
EXTENDS Lru, Seq
====
