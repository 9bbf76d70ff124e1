---- MODULE Base64_T ----
EXTENDS Base64, Seq
====
