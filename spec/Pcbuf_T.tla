---- MODULE Pcbuf_T ----
EXTENDS Pcbuf, Lin
====
