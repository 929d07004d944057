---- MODULE MCBig ----
EXTENDS Big
All(S) == S
====
