---- MODULE JsonVal_T ----
EXTENDS JsonVal, Seq
====
