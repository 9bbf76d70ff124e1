---- MODULE Thread_T ----
EXTENDS Thread, Lin
====
