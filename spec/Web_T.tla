---- MODULE Web_T ----
EXTENDS Web, Obs
====
