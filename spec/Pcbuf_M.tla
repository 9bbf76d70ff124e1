---- MODULE Pcbuf_M ----
EXTENDS Pcbuf, Monitor
====
