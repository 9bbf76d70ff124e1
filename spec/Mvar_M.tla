---- MODULE Mvar_M ----
EXTENDS Mvar, Monitor
====
