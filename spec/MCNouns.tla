---- MODULE MCNouns ----
EXTENDS Nouns
All(S) == S
====
