---- MODULE MCTable ----
EXTENDS Table
All(S) == S
====
