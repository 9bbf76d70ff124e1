---- MODULE Reflect_T ----
EXTENDS Reflect, Seq
====
