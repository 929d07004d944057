---- MODULE MCCompose ----
EXTENDS Compose
All(S) == S
====
