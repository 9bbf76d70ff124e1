---- MODULE Config_T ----
EXTENDS Config, Seq
====
