---- MODULE Single_M ----
EXTENDS Single, Monitor
====
