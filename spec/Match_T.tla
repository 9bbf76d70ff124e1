---- MODULE Match_T ----
EXTENDS Match, Seq
====
