---- MODULE Stream ----
(***************************************************************************)
(* What formatting may do to a document.  A reader goes through the source *)
(* and through the formatted text at the same time; both are streams of    *)
(* what a reader sees: words, characters, blanks, marks which open and     *)
(* close blocks and spans, code, HTML, links with their addresses.         *)
(* Formatting may change a document only by the documented rewrites, each  *)
(* of which is one rule here; everything else has to be met on both sides. *)
(* The traces are streams recorded from the program.  C02.                 *)
(*                                                                         *)
(* Elements: "w…" a word, "c…" one other character, "s" blanks, "<…" ">…"  *)
(* open and close, "code|info" "lit|…" code, "task|x" …, "en|s" the rest.  *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANT File
Traces == ndJsonDeserialize(File)
(* [in, out: streams; fin, fout: the same in lower case if sentence case is on (else empty);
    en, em, default, double, single, apos, dots: the options; ch: the characters which TLA+ strings cannot hold] *)

VARIABLES t, i, j, head, used, verdict
vars == <<t, i, j, head, used, verdict>>

In == Traces[t].in
Out == Traces[t].out
O == Traces[t].o
Ch == Traces[t].o.ch
Ended == i > Len(In) /\ j > Len(Out)
A == In[i]
B == Out[j]
Both == i <= Len(In) /\ j <= Len(Out)
At(s, k, p) == k + Len(p) - 1 <= Len(s) /\ SubSeq(s, k, k + Len(p) - 1) = p

Init == t \in (1..Len(Traces)) /\ i = 1 /\ j = 1 /\ head = FALSE /\ used = {} /\ verdict = ""
Step(n, m, rule) == i' = i + n /\ j' = j + m /\ used' = used \cup {rule} /\ UNCHANGED <<t, head, verdict>>

(* what is met on both sides *)
Same ==
    /\ Both /\ A = B
    /\ i' = i + 1 /\ j' = j + 1
    /\ head' = (IF Len(A) > 2 /\ SubSeq(A, 1, 2) = "<h" /\ A # "<hr" THEN TRUE ELSE IF A = ">h" THEN FALSE ELSE head)
    /\ UNCHANGED <<t, used, verdict>>
(* headings in sentence case *)
Case == Both /\ A # B /\ head /\ O.sentence /\ Traces[t].fin[i] = Traces[t].fout[j] /\ Step(1, 1, "case")
(* straight quotes become curly ones, never the other way round *)
Quote == Both /\ A = Ch.dq /\ O.double /\ B \in {Ch.ldq, Ch.rdq} /\ Step(1, 1, "double quote")
Tick == Both /\ A = "c'" /\ (O.single \/ O.apos) /\ (B = Ch.rsq \/ (O.single /\ B = Ch.lsq)) /\ Step(1, 1, "single quote")
Dots == Both /\ O.dots /\ At(In, i, <<"c.", "c.", "c.">>) /\ B = Ch.ell /\ Step(3, 1, "ellipsis")
Dash ==
    \/ Both /\ O.en # <<>> /\ At(In, i, O.en) /\ B = Ch.en /\ Step(Len(O.en), 1, "en dash")
    \/ Both /\ O.em # <<>> /\ At(In, i, O.em) /\ B = Ch.em /\ Step(Len(O.em), 1, "em dash")
(* a code block without language gets the default one *)
Language == Both /\ A = "code|" /\ O.default # "" /\ B = "code|" \o O.default /\ Step(1, 1, "language")
(* the mark of a task *)
Task == Both /\ A = "<task|X" /\ B = "<task|x" /\ Step(1, 1, "task")
(* some place in either has no counterpart *)
Rules == Same \/ Case \/ Quote \/ Tick \/ Dots \/ Dash \/ Language \/ Task
Stuck == ~Ended /\ ~ENABLED Rules /\ verdict' = "stuck" /\ UNCHANGED <<t, i, j, head, used>>
End == Ended /\ verdict' = "right" /\ UNCHANGED <<t, i, j, head, used>>
Next == verdict = "" /\ (Rules \/ Stuck \/ End)
Spec == Init /\ [][Next]_vars

(* rules which are switched off are not used *)
OnlyEnabled ==
    /\ ("case" \in used => O.sentence) /\ ("double quote" \in used => O.double) /\ ("single quote" \in used => O.single \/ O.apos)
    /\ ("ellipsis" \in used => O.dots) /\ ("en dash" \in used => O.en # <<>>) /\ ("em dash" \in used => O.em # <<>>)
Emit == verdict # "" => PrintT(ToJson([t |-> t, verdict |-> verdict, i |-> i, j |-> j, used |-> used]))
====
