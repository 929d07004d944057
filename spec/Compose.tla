---- MODULE Compose ----
(***************************************************************************)
(* Documents made of documents: the documents which the other              *)
(* specifications describe, one after the other and within quotes, alerts, *)
(* items, descriptions and footnotes, to any depth.  What formatting may   *)
(* do to these is in Stream.tla.  C01, C02, C16.                           *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS MinLen, MaxLen, File, Frames, Choices(_)
Pieces == ndJsonDeserialize(File)     \* [lines, refs, notes, defs, dirs: whether it refers to footnotes, defines them, defines anything, holds directives]

VARIABLES phase, lines, open, n, marks
vars == <<phase, lines, open, n, marks>>
(* lines: the lines of the innermost open container; open: the containers around it, as <<frame, lines before it>> *)

Init == phase = "build" /\ lines = <<>> /\ open = <<>> /\ n = 0 /\ marks = {}
Able == phase = "build" /\ n < MaxLen
Apart(a, b) == IF a = <<>> THEN b ELSE a \o <<"">> \o b
Say(k) == <<"Between " \o ToString(k) \o ".">>
InNote == \E k \in 1..Len(open) : open[k][1] = "fn"
Fits(p) ==
    /\ p.notes => (marks \cap {"note", "dir"} = {} /\ ~InNote)
    /\ p.defs => "dir" \notin marks
    /\ p.dirs => (marks \cap {"note", "fn"} = {} /\ ~p.defs)
Piece ==
    /\ Able
    \* no footnotes are defined within footnotes, or twice, or along with directives; nothing is defined
    \* after directives (definitions in unformatted parts are those of the specification of documents)
    /\ \E p \in Choices({x \in 1..Len(Pieces) : Fits(Pieces[x])}) :
         /\ lines' = Apart(Apart(lines, IF n = 0 THEN <<>> ELSE Say(n)), Pieces[p].lines) \o (IF Pieces[p].defs THEN <<"", "End " \o ToString(n) \o ".">> ELSE <<>>)
         /\ marks' = marks \cup (IF Pieces[p].notes THEN {"note"} ELSE {}) \cup (IF Pieces[p].dirs THEN {"dir"} ELSE {})
    /\ n' = n + 1 /\ UNCHANGED <<phase, open>>
May(f) ==
    /\ f = "fn" => ("dir" \notin marks /\ ~InNote)
    \* (an alert at the start of a description is a known finding)
    /\ f = "alert" => (lines # <<>> \/ open = <<>> \/ Last(open)[1] # "dd")
Open ==
    /\ Able /\ Len(open) < 4
    /\ \E f \in Choices({x \in Frames : May(x)}) : open' = Append(open, <<f, lines>>) /\ marks' = (IF f = "fn" THEN marks \cup {"fn"} ELSE marks)
    /\ lines' = <<>> /\ n' = n + 1 /\ UNCHANGED phase
(* the text of a container *)
Pre(first, rest, s) == [k \in 1..Len(s) |-> IF k = 1 THEN first \o s[k] ELSE IF s[k] = "" THEN "" ELSE rest \o s[k]]
Quoted(s) == [k \in 1..Len(s) |-> IF s[k] = "" THEN ">" ELSE "> " \o s[k]]
Framed(f, s, k) ==
    CASE f = "bq" -> Quoted(s)
      [] f = "alert" -> <<"> [!NOTE]">> \o Quoted(s)
      [] f = "ul" -> Pre("- ", "  ", s)
      [] f = "ulp" -> <<"- Item " \o ToString(k), "">> \o Pre("  ", "  ", s)
      [] f = "ol" -> Pre("1. ", "   ", s)
      [] f = "task" -> <<"- [x] Task " \o ToString(k), "">> \o Pre("  ", "  ", s)
      [] f = "dd" -> <<"Term " \o ToString(k), "">> \o Pre(":   ", "    ", s)
      [] f = "fn" -> <<"See[^n" \o ToString(k) \o "].", "", "[^n" \o ToString(k) \o "]: Note " \o ToString(k) \o ".", "">> \o Pre("    ", "    ", s) \o <<"", "After " \o ToString(k) \o ".">>
Close ==
    /\ phase = "build" /\ open # <<>> /\ lines # <<>>
    /\ LET o == Last(open) IN lines' = Apart(Apart(o[2], IF o[2] = <<>> THEN <<>> ELSE Say(n + 100)), Framed(o[1], lines, n))
    /\ open' = Front(open) /\ UNCHANGED <<phase, n, marks>>
End == phase = "build" /\ n >= MinLen /\ open = <<>> /\ lines # <<>> /\ phase' = "done" /\ UNCHANGED <<lines, open, n, marks>>
Next == Piece \/ Open \/ Close \/ End
Spec == Init /\ [][Next]_vars

Done == phase = "done"
Rec == [src |-> Join(lines, NL) \o NL]
Emit == Done => PrintT(ToJson(Rec))
====
