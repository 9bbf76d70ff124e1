---- MODULE Uri_T ----
EXTENDS Uri, Seq
====
