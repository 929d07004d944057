---- MODULE MCConfig ----
EXTENDS Config
All(S) == S
Everything == AllSettings
====
