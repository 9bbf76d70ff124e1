---- MODULE Md5_T ----
EXTENDS Md5, Seq
====
