---- MODULE Sys_T ----
EXTENDS Sys, Seq
====
