---- MODULE UStr_T ----
EXTENDS UStr, Seq
====
