---- MODULE Single_T ----
EXTENDS Single, Lin
====
