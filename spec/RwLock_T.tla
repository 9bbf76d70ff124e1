---- MODULE RwLock_T ----
EXTENDS RwLock, Lin
====
