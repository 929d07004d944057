---- MODULE Diff ----
(***************************************************************************)
(* What a unified diff means: a reader goes through the lines of a diff    *)
(* with the source at hand and writes down the other file.  The traces are *)
(* diffs recorded from the program; each has to lead from every source to  *)
(* its formatted text, and to say nothing where these are equal.           *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANT File
Traces == ndJsonDeserialize(File)     \* [sections: <<[name, src, out]>>, lines]; lines keep their newline

VARIABLES t, k, sec, open, pos, new, old, add, verdict
vars == <<t, k, sec, open, pos, new, old, add, verdict>>

Lines == Traces[t].lines
Sections == Traces[t].sections
Line == Lines[k]
Part(i, j) == IF j > Len(Line) THEN "" ELSE SubSeq(Line, i, j)
Ch(i) == Part(i, i)
Rest == SubSeq(Line, 2, Len(Line))
NoNl == "\\ No newline at end of file\n"
(* the text of a changed line: without its newline if the next line says so *)
Marked == k < Len(Lines) /\ Lines[k + 1] = NoNl
Value == IF Marked THEN SubSeq(Rest, 1, Len(Rest) - 1) ELSE Rest
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Digit(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
RECURSIVE Number(_, _)
Number(i, acc) == IF i <= Len(Line) /\ Ch(i) \in Digits THEN Number(i + 1, 10 * acc + Digit(Ch(i))) ELSE <<acc, i>>
(* -a,b: where a range starts and how long it is *)
RangeAt(i) == LET a == Number(i, 0) IN IF Ch(a[2]) = "," THEN LET b == Number(a[2] + 1, 0) IN <<a[1], b[1], b[2]>> ELSE <<a[1], 1, a[2]>>

Init == /\ t \in (1..Len(Traces)) /\ k = 1 /\ sec = 0 /\ open = FALSE /\ pos = 0 /\ new = <<>> /\ old = 0 /\ add = 0 /\ verdict = ""
Source == Sections[sec].src
Unsaid == {s \in 1..Len(Sections) : s > sec}
(* the files passed over are equal *)
Skip(to) == \A s \in 1..Len(Sections) : s > sec /\ s < to => Sections[s].src = Sections[s].out
Complete == ~open \/ (old = 0 /\ add = 0 /\ new \o SubSeq(Source, pos + 1, Len(Source)) = Sections[sec].out)
Stop(why) == verdict' = why /\ UNCHANGED <<t, k, sec, open, pos, new, old, add>>
Header ==
    LET next == {s \in Unsaid : Sections[s].src # Sections[s].out}
        s == CHOOSE x \in next : \A y \in next : x <= y
    IN  IF ~Complete THEN Stop("a diff does not lead to the formatted text")
        ELSE IF next = {} THEN Stop("a diff of equal texts")
        ELSE IF Line # "--- " \o Sections[s].name \o "\n" \/ k = Len(Lines) \/ Lines[k + 1] # "+++ " \o Sections[s].name \o "\n" THEN Stop("a header is wrong")
        ELSE sec' = s /\ open' = TRUE /\ pos' = 0 /\ new' = <<>> /\ old' = 0 /\ add' = 0 /\ k' = k + 2 /\ UNCHANGED <<t, verdict>>
Hunk ==
    LET a == RangeAt(5)
        c == RangeAt(a[3] + 2)
        upto == IF a[2] = 0 THEN a[1] ELSE a[1] - 1
        from == IF c[2] = 0 THEN c[1] ELSE c[1] - 1
    IN  IF ~open \/ Part(1, 4) # "@@ -" \/ Part(a[3], a[3] + 1) # " +" \/ Part(c[3], c[3] + 2) # " @@" THEN Stop("a line is not part of a diff")
        ELSE IF upto < pos \/ upto > Len(Source) \/ from # Len(new) + upto - pos THEN Stop("a hunk is at a wrong place")
        ELSE new' = new \o SubSeq(Source, pos + 1, upto) /\ pos' = upto /\ old' = a[2] /\ add' = c[2] /\ k' = k + 1 /\ UNCHANGED <<t, sec, open, verdict>>
Change ==
    LET keep == Ch(1) = " "  del == Ch(1) = "-"  ins == Ch(1) = "+"
    IN  IF ~(keep \/ del \/ ins) THEN Stop("a line is not part of a hunk")
        ELSE IF (keep \/ del) /\ (old = 0 \/ pos >= Len(Source) \/ Source[pos + 1] # Value) THEN Stop("a line is not that of the source")
        ELSE IF (keep \/ ins) /\ add = 0 THEN Stop("a hunk is longer than it says")
        ELSE /\ pos' = (IF ins THEN pos ELSE pos + 1) /\ old' = (IF ins THEN old ELSE old - 1)
             /\ new' = (IF del THEN new ELSE Append(new, Value)) /\ add' = (IF del THEN add ELSE add - 1)
             /\ k' = (IF Marked THEN k + 2 ELSE k + 1) /\ UNCHANGED <<t, sec, open, verdict>>
End ==
    IF ~Complete THEN Stop("a diff does not lead to the formatted text")
    ELSE IF \E s \in Unsaid : Sections[s].src # Sections[s].out THEN Stop("a diff is missing")
    ELSE Stop("right")
Next == verdict = "" /\ (IF k > Len(Lines) THEN End ELSE IF old > 0 \/ add > 0 THEN Change ELSE IF Part(1, 4) = "--- " THEN Header ELSE Hunk)
Spec == Init /\ [][Next]_vars
Emit == verdict # "" => PrintT(ToJson([t |-> t, verdict |-> verdict, k |-> k]))
====
