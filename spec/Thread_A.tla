---- MODULE Thread_A ----
EXTENDS Thread, Atom
====
