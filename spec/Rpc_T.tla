---- MODULE Rpc_T ----
EXTENDS Rpc, Obs
====
