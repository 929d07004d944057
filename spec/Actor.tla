---- MODULE Actor ----
(***************************************************************************)
(* External code formatters: scripts a process may follow, and what has to *)
(* become of a block whose formatter follows them.                         *)
(***************************************************************************)
EXTENDS Text

(* R r: read everything, or a little; C c: copy the input, at once or after
   reading all of it; o O: print a line, or more than a pipe holds; e E: the same
   on standard error; i u: close input or output; f g q n m w: print lines which
   look like fences, a line ended by CR LF, a blank line, markup, text without
   its newline; b: print what is not text; p s z: wait a little, for two seconds,
   forever; h: leave a process behind which holds the pipes; k: die by a signal;
   x0 x3: exit *)
Exits == {"x0", "x3", "k"}
Index(sc, ops) == LET J == {j \in 1..Len(sc) : sc[j] \in ops} IN IF J = {} THEN Len(sc) + 1 ELSE CHOOSE j \in J : \A i \in J : j <= i
(* the part of a script that is run *)
Executed(sc) == SubSeq(sc, 1, Index(sc, Exits \cup {"z"}))
Has(sc, op) == op \in Range(Executed(sc))
Ending(sc) == LET e == Executed(sc) IN IF e = <<>> THEN "x0" ELSE IF Last(e) \in Exits \cup {"z"} THEN Last(e) ELSE "x0"
(* a formatter which sleeps for seconds is in time if it has more of them *)
InTime(sc, secs) == Ending(sc) # "z" /\ (Has(sc, "s") => secs >= 6)
Outcome(sc, secs) ==
    CASE sc = <<"missing">> -> "spawn"
      [] ~InTime(sc, secs) -> "timeout"
      [] Ending(sc) # "x0" -> "failed"
      [] Has(sc, "h") /\ Index(sc, {"h"}) < Index(sc, {"u"}) -> "timeout"               \* the output never ends
      [] Has(sc, "b") /\ Index(sc, {"b"}) < Index(sc, {"u"}) -> "invalid"
      [] OTHER -> "ok"
====
