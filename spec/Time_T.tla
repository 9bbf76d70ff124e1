---- MODULE Time_T ----
EXTENDS Time, Seq
====
