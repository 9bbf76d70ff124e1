---- MODULE Http_T ----
EXTENDS Http, Seq
====
