---- MODULE Bytes_T ----
EXTENDS Bytes, Seq
====
