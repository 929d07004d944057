---- MODULE MCSession ----
EXTENDS Session
All(S) == S
====
