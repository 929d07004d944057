---- MODULE Pipe ----
(***************************************************************************)
(* How the formatter of a block is run: a process follows its script, one  *)
(* thread feeds it, two drain it, and one polls for its end until time is  *)
(* up.  The pipes hold two units each.  Whatever the order of their steps, *)
(* a result is reached, and it is the one the script decides.              *)
(***************************************************************************)
EXTENDS Actor

CONSTANTS MaxLen, Ops, Input, Cap

VARIABLES script, pc, held,       \* the process: its script, where it is, a unit it copies
          inp, inOpen, fed,       \* the pipe to it, whether it still reads, units written
          outp, got,              \* the pipe from it, units drained
          errp,                   \* its standard error
          alive, fd1,             \* is it alive, is its output open
          holder, hout,           \* does a process it left behind hold its input, its output
          writer, status, result

vars == <<script, pc, held, inp, inOpen, fed, outp, got, errp, alive, holder, hout, fd1, writer, status, result>>

Scripts == {s \o <<x>> : s \in UNION {[1..k -> Ops] : k \in 0..MaxLen}, x \in Exits}
Init ==
    /\ script \in (Scripts) /\ pc = 1 /\ held = FALSE /\ inp = 0 /\ inOpen = TRUE /\ fed = 0 /\ outp = 0 /\ got = 0 /\ errp = 0
    /\ alive = TRUE /\ holder = FALSE /\ hout = FALSE /\ fd1 = TRUE /\ writer = "busy" /\ status = "" /\ result = ""

Op == script[pc]
Ended == writer = "done"                   \* the end of the input has been marked
Dies(s) == alive' = FALSE /\ status' = s /\ inOpen' = holder /\ UNCHANGED <<script, pc, held, inp, fed, outp, got, errp, holder, hout, fd1, writer, result>>
Go == pc' = pc + 1
Process ==
    /\ alive
    /\ CASE Op = "x0" -> Dies("0") [] Op \in {"x3", "k"} -> Dies("3")
         [] Op = "z" -> FALSE /\ UNCHANGED vars
         [] Op = "p" -> Go /\ UNCHANGED <<script, held, inp, inOpen, fed, outp, got, errp, alive, holder, hout, fd1, writer, status, result>>
         [] Op = "i" -> Go /\ inOpen' = holder /\ UNCHANGED <<script, held, inp, fed, outp, got, errp, alive, holder, hout, fd1, writer, status, result>>
         [] Op = "u" -> Go /\ fd1' = FALSE /\ UNCHANGED <<script, held, inp, inOpen, fed, outp, got, errp, alive, holder, hout, writer, status, result>>
         [] Op = "h" -> Go /\ holder' = (holder \/ inOpen) /\ hout' = (hout \/ fd1) /\ UNCHANGED <<script, held, inp, inOpen, fed, outp, got, errp, alive, fd1, writer, status, result>>
         [] Op \in {"R", "r"} ->
              /\ ~inOpen \/ inp > 0 \/ Ended
              /\ IF inOpen /\ inp > 0 THEN inp' = inp - 1 /\ pc' = (IF Op = "r" THEN pc + 1 ELSE pc) ELSE pc' = pc + 1 /\ inp' = inp
              /\ UNCHANGED <<script, held, inOpen, fed, outp, got, errp, alive, holder, hout, fd1, writer, status, result>>
         [] Op = "C" ->
              IF held THEN /\ ~fd1 \/ outp < Cap
                           /\ outp' = (IF fd1 THEN outp + 1 ELSE outp) /\ held' = FALSE
                           /\ UNCHANGED <<script, pc, inp, inOpen, fed, got, errp, alive, holder, hout, fd1, writer, status, result>>
              ELSE /\ ~inOpen \/ inp > 0 \/ Ended
                   /\ IF inOpen /\ inp > 0 THEN inp' = inp - 1 /\ held' = TRUE /\ pc' = pc ELSE pc' = pc + 1 /\ UNCHANGED <<inp, held>>
                   /\ UNCHANGED <<script, inOpen, fed, outp, got, errp, alive, holder, hout, fd1, writer, status, result>>
         [] Op = "o" -> (~fd1 \/ outp < Cap) /\ Go /\ outp' = (IF fd1 THEN outp + 1 ELSE outp)
                        /\ UNCHANGED <<script, held, inp, inOpen, fed, got, errp, alive, holder, hout, fd1, writer, status, result>>
         [] Op = "e" -> errp < Cap /\ Go /\ errp' = errp + 1
                        /\ UNCHANGED <<script, held, inp, inOpen, fed, outp, got, alive, holder, hout, fd1, writer, status, result>>

(* the threads of the program *)
Feed == /\ writer = "busy" /\ (~inOpen \/ inp < Cap \/ fed = Input)
        /\ IF ~inOpen \/ fed = Input THEN writer' = "done" /\ UNCHANGED <<inp, fed>> ELSE inp' = inp + 1 /\ fed' = fed + 1 /\ writer' = writer
        /\ UNCHANGED <<script, pc, held, inOpen, outp, got, errp, alive, holder, hout, fd1, status, result>>
DrainOut == outp > 0 /\ outp' = outp - 1 /\ got' = got + 1 /\ UNCHANGED <<script, pc, held, inp, inOpen, fed, errp, alive, holder, hout, fd1, writer, status, result>>
DrainErr == errp > 0 /\ errp' = errp - 1 /\ UNCHANGED <<script, pc, held, inp, inOpen, fed, outp, got, alive, holder, hout, fd1, writer, status, result>>
(* time passes only where nothing else happens for good *)
Stuck == alive /\ Op = "z"
TimeUp == /\ result = "" /\ Stuck
          /\ alive' = FALSE /\ status' = "killed" /\ result' = "timeout" /\ inOpen' = holder
          /\ UNCHANGED <<script, pc, held, inp, fed, outp, got, errp, holder, hout, fd1, writer>>
OutEnds == ~hout /\ outp = 0
Polled ==
    /\ result = "" /\ ~alive
    /\ IF status = "3" THEN result' = "failed"
       ELSE /\ writer = "done" \/ holder
            /\ OutEnds \/ hout
            /\ result' = IF hout THEN "timeout" ELSE "ok"
    /\ UNCHANGED <<script, pc, held, inp, inOpen, fed, outp, got, errp, alive, holder, hout, fd1, writer, status>>
Next == Process \/ Feed \/ DrainOut \/ DrainErr \/ TimeUp \/ Polled
Spec == Init /\ [][Next]_vars /\ WF_vars(Process) /\ WF_vars(Feed) /\ WF_vars(DrainOut) /\ WF_vars(DrainErr) /\ WF_vars(TimeUp) /\ WF_vars(Polled)

(* ------------------------------------------------------------- properties *)
Decided == result # "" => result = Outcome(script, 5)
(* the units a script prints: those it copies before it closes its input or output, and its own *)
Copies(k) == LET before == SubSeq(script, 1, k - 1) IN IF \E j \in 1..Len(before) : before[j] \in {"R", "C", "i"} THEN 0 ELSE Max(0, Input - Cardinality({j \in 1..Len(before) : before[j] = "r"}))
RECURSIVE Prints(_)
Prints(k) == IF k > Len(Executed(script)) \/ script[k] = "u" THEN 0 ELSE (CASE script[k] = "o" -> 1 [] script[k] = "C" -> Copies(k) [] OTHER -> 0) + Prints(k + 1)
NothingLost == result = "ok" => got = Prints(1)
Finishes == <>(result # "")
====
