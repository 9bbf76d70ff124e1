---- MODULE Sock_T ----
EXTENDS Sock, Obs
====
