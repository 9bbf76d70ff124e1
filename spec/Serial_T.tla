---- MODULE Serial_T ----
EXTENDS Serial, Seq
====
