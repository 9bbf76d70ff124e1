---- MODULE Code_T ----
EXTENDS Code, Seq
====
