---- MODULE Sync_T ----
EXTENDS Sync, Lin
====
