---- MODULE Numeric_T ----
EXTENDS Numeric, Seq
====
