---- MODULE Mmap_T ----
EXTENDS Mmap, Seq
====
