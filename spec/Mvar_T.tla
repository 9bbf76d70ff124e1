---- MODULE Mvar_T ----
EXTENDS Mvar, Lin
====
