---- MODULE RwLock_A ----
EXTENDS RwLock, Atom
====
