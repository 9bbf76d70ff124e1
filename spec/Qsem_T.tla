---- MODULE Qsem_T ----
EXTENDS Qsem, Lin
====
