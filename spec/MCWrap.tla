---- MODULE MCWrap ----
EXTENDS Wrap
All(S) == S
====
