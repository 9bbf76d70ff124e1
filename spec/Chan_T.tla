---- MODULE Chan_T ----
EXTENDS Chan, Lin
====
