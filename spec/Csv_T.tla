---- MODULE Csv_T ----
EXTENDS Csv, Seq
====
