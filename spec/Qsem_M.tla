---- MODULE Qsem_M ----
EXTENDS Qsem, Monitor
====
