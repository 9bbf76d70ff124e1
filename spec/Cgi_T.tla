---- MODULE Cgi_T ----
EXTENDS Cgi, Seq
====
