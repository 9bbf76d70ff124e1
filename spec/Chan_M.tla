---- MODULE Chan_M ----
EXTENDS Chan, Monitor
====
