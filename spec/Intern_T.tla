---- MODULE Intern_T ----
EXTENDS Intern, Seq
====
