---- MODULE MCSoup ----
EXTENDS Soup
All(S) == S
Everything == AllSettings
====
