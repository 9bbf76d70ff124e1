---- MODULE JsonText_T ----
EXTENDS JsonText, Seq
====
