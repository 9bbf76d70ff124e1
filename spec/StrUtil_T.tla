---- MODULE StrUtil_T ----
EXTENDS StrUtil, Seq
====
