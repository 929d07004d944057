---- MODULE MCWarn ----
EXTENDS Warn
All(S) == S
====
