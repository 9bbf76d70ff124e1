---- MODULE Xhtml_T ----
EXTENDS Xhtml, Seq
====
