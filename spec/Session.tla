---- MODULE Session ----
(***************************************************************************)
(* Histories of use.  Formatting is a function of text and settings whose  *)
(* results are fixed points; all that is known of it here is that: F maps   *)
(* every text of a document, with whichever line endings, to the same       *)
(* formatted text, whose lines end in line feeds.  A user formats           *)
(* texts through the library (two functions, calls one after the other or  *)
(* side by side) and through the program (standard input, files, in every  *)
(* mode), and edits files in between.  C01, C16, C22.                      *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS MinLen, MaxLen, Docs, Files, Ops, Sides, Eols, Choices(_)

VARIABLES phase, start, files, hist, clean,
          eol          \* how the user's editor ends lines: "lf", "crlf" or "cr"

vars == <<phase, start, files, hist, clean, eol>>

(* a text: a document as its author wrote it (with the line endings eol), or as
   formatting left it *)
Raw(d) == [d |-> d, f |-> FALSE]
F(t) == [t EXCEPT !.f = TRUE]
(* a document whose author already wrote what formatting makes of it *)
Same(t) == t.f \/ (t.d \in clean /\ eol = "lf")
Texts == {Raw(d) : d \in Docs} \cup {F(Raw(d)) : d \in Docs}

Init ==
    /\ phase = "use" /\ hist = <<>> /\ clean \in (SUBSET Docs) /\ eol \in (Eols)
    /\ files \in ([Files -> {Raw(d) : d \in Docs}]) /\ start = files
Log(e) == hist' = Append(hist, e)
Able == phase = "use" /\ Len(hist) < MaxLen

(* calls of the library: a number of them side by side, each with a function and a text *)
Lib ==
    /\ Able /\ "lib" \in Ops
    /\ \E n \in Choices(1..Sides), ts \in Choices([1..Sides -> Texts]), es \in Choices([1..Sides -> {"format", "warn"}]) :
         Log([op |-> "lib", calls |-> [i \in 1..n |-> [t |-> ts[i], entry |-> es[i]]], outs |-> [i \in 1..n |-> F(ts[i])]])
    /\ UNCHANGED <<phase, start, files, clean>>
Stdin ==
    /\ Able /\ "stdin" \in Ops
    /\ \E t \in Choices(Texts), m \in Choices({"-", "--stdin", "--diff", "--check", "--write"}) :
         Log([op |-> "stdin", mode |-> m, t |-> t, out |-> F(t), says |-> m # "--diff" \/ ~Same(t)])
    /\ UNCHANGED <<phase, start, files, clean>>
Dirty(fs) == {x \in fs : ~Same(files[x])}
Write ==
    /\ Able /\ "write" \in Ops
    /\ \E fs \in Choices(SUBSET Files \ {{}}) :
        /\ Log([op |-> "write", fs |-> fs, texts |-> [x \in Files |-> files[x]], after |-> [x \in Files |-> IF x \in fs THEN F(files[x]) ELSE files[x]], listed |-> Dirty(fs)])
        /\ files' = [x \in Files |-> IF x \in Dirty(fs) THEN F(files[x]) ELSE files[x]]
    /\ UNCHANGED <<phase, start, clean>>
Check ==
    /\ Able /\ "check" \in Ops
    /\ \E fs \in Choices(SUBSET Files \ {{}}) : Log([op |-> "check", fs |-> fs, texts |-> [x \in Files |-> files[x]], listed |-> Dirty(fs), ok |-> Dirty(fs) = {}])
    /\ UNCHANGED <<phase, start, files, clean>>
Diff ==
    /\ Able /\ "diff" \in Ops
    /\ \E fs \in Choices(SUBSET Files \ {{}}) : Log([op |-> "diff", fs |-> fs, texts |-> [x \in Files |-> files[x]], listed |-> Dirty(fs)])
    /\ UNCHANGED <<phase, start, files, clean>>
Show ==
    /\ Able /\ "print" \in Ops
    /\ \E x \in Choices(Files) : Log([op |-> "print", fs |-> {x}, texts |-> [y \in Files |-> files[y]], out |-> F(files[x])])
    /\ UNCHANGED <<phase, start, files, clean>>
Edit ==
    /\ Able /\ "edit" \in Ops
    /\ \E x \in Choices(Files), t \in Choices(Texts) : files' = [files EXCEPT ![x] = t] /\ Log([op |-> "edit", fs |-> {x}, t |-> t])
    /\ UNCHANGED <<phase, start, clean>>
End == phase = "use" /\ Len(hist) >= MinLen /\ phase' = "done" /\ UNCHANGED <<start, files, hist, clean>>
Next == (Lib \/ Stdin \/ Write \/ Check \/ Diff \/ Show \/ Edit \/ End) /\ UNCHANGED eol
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- properties *)
Settled(k, x) == hist[k].op = "write" /\ x \in hist[k].fs
Edited(k, x) == hist[k].op = "edit" /\ x \in hist[k].fs
(* what was written passes a check until it is edited, and is not written again *)
WriteThenCheck ==
    \A k \in 1..Len(hist) : hist[k].op \in {"check", "write", "diff"} =>
        \A x \in hist[k].listed : \A j \in 1..k - 1 : Settled(j, x) => \E m \in j..k : Edited(m, x)
(* reading does not write *)
OnlyWriteWrites == [][files' # files => hist'[Len(hist')].op \in {"write", "edit"}]_vars
(* the same text gives the same result whenever and however it is formatted *)
Results == [t \in Texts |-> {hist[k].out : k \in {j \in 1..Len(hist) : hist[j].op = "stdin" /\ hist[j].t = t}}
                            \cup UNION {{hist[k].outs[i] : i \in {n \in 1..Len(hist[k].calls) : hist[k].calls[n].t = t}} : k \in {j \in 1..Len(hist) : hist[j].op = "lib"}}]
OneResult == \A t \in Texts : Cardinality(Results[t]) <= 1 /\ \A r \in Results[t] : Same(r) /\ F(r) = r

Done == phase = "done"
Rec == [files |-> start, hist |-> hist, clean |-> clean, eol |-> eol]
Emit == Done => PrintT(ToJson(Rec))
====
