---- MODULE MCWasmOpts ----
EXTENDS WasmOpts
All(S) == S
Everything == AllSettings
Maybe == {TRUE, FALSE}
Never == {FALSE}
====
