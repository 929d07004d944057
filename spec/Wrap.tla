---- MODULE Wrap ----
(***************************************************************************)
(* Paragraph wrapping (wrap.rs) as a state machine over tokens.  An author *)
(* writes a paragraph token by token -- with spaces, line breaks and hard   *)
(* breaks in between -- into a container; the system then keeps or refills *)
(* its lines.  C08.                                                        *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS MinLen, MaxLen, Widths, Contexts, TokenSet, Seps, Choices(_)

VARIABLES phase, ctx, width, toks,  \* the author's part: toks = <<[t, sep]>> (sep precedes the token)
          ti,                       \* token being placed
          mode,                     \* "keep" or "fill": how the current segment is treated
          out                       \* output lines: sequences of [t, gap] (gap: spaces before it)

vars == <<phase, ctx, width, toks, ti, mode, out>>

(* ----------------------------------------------------------------- tokens *)
(* x: text; w: its display width; esc: how it is written at the start of a line;
   glue: it may not start a line at all; under: alone on a line it would be an
   underline; bol: the author may start a line with it; br: its two parts if the
   author breaks the line within it; ref: it refers to a definition *)
Tok(x, w, esc, glue, under, bol) == [x |-> x, w |-> w, esc |-> esc, glue |-> glue, under |-> under, bol |-> bol, br |-> <<>>, ref |-> FALSE]
Plain(x, w) == Tok(x, w, x, FALSE, FALSE, TRUE)
Word(n) == Plain(SubSeq("abcdefghijklmnop", 1, n), n)
Words == {Word(n) : n \in {1, 2, 3, 4, 5, 7}}
Basic == {Word(1), Word(2), Word(3), Word(5)}
Big == {Word(12), Word(16)}
Wide == {Plain("{W}", 2), Plain("{W}{K}{W}", 6), Plain("{E}", 2), Plain("{C}x", 2), Plain("{A}b{W}", 4)}
Spans == {Plain("`a b`", 5), Plain("`` c ` d ``", 11), Plain("[x y](./u)", 10), Plain("![p q r](./i.png)", 17),
          Plain("[un def]", 8), Plain("x`c  d`y", 8), Plain("[a `b c` d](./u)", 16), Plain("([q r]),", 8), Plain("[![a b](./i) c d](./u)", 22), Plain("[p [q r] s](./u)", 16), Plain("[u v]*w*[x y]", 13)}
Ref(x, w, br) == [Plain(x, w) EXCEPT !.br = br, !.ref = TRUE]
Refs == {Ref("[s t][q r]", 10, <<>>), Ref("![s t][q r]", 11, <<>>), Ref("[s][q r]", 8, <<"[s][q", "r]">>), Ref("[q r][]", 7, <<>>), Ref("[q r]", 5, <<>>), Ref("![s][q r]", 9, <<"![s][q", "r]">>)}
Escapes == {Plain("\\`", 2), Plain("\\[z\\]", 5), Plain("\\*", 2), Plain("\\\\", 2)}
(* brackets nothing closes or opens are nothing but characters *)
Opening == {Plain("[o", 2), Plain("f[o,", 4), Plain("[[o", 3), Plain("([o", 3)}
Closing == {Plain("o]", 2), Plain("o]]", 3), Plain("(o],", 4)}
Emph == {Plain("*i*", 3), Plain("**b**", 5)}
Starts == {Tok("-", 1, "\\-", FALSE, FALSE, FALSE), Tok("+", 1, "\\+", FALSE, FALSE, FALSE),
           Tok("1.", 2, "1\\.", FALSE, FALSE, FALSE), Tok("#", 1, "\\#", FALSE, FALSE, FALSE),
           Tok("==", 2, "==", FALSE, TRUE, FALSE), Tok("<div>", 5, "<div>", TRUE, FALSE, FALSE),
           Tok("12)", 3, "12)", FALSE, FALSE, FALSE), Tok("<i>", 3, "<i>", FALSE, FALSE, FALSE)}
Tokens ==
    (IF "basic" \in TokenSet THEN Basic ELSE {}) \cup (IF "words" \in TokenSet THEN Words ELSE {}) \cup (IF "big" \in TokenSet THEN Big ELSE {})
    \cup (IF "wide" \in TokenSet THEN Wide ELSE {}) \cup (IF "spans" \in TokenSet THEN Spans ELSE {})
    \cup (IF "escapes" \in TokenSet THEN Escapes ELSE {}) \cup (IF "starts" \in TokenSet THEN Starts ELSE {})
    \cup (IF "opening" \in TokenSet THEN Opening ELSE {}) \cup (IF "closing" \in TokenSet THEN Closing ELSE {})
    \cup (IF "emph" \in TokenSet THEN Emph ELSE {}) \cup (IF "refs" \in TokenSet THEN Refs ELSE {})

(* separators: "1", "2" spaces; "nl" line break; "hard" hard line break (spaces
   or backslash) *)
Breaks == {"nl", "hard", "hardbs"}

(* ------------------------------------------------------------- containers *)
(* src1/srcn: what precedes the first and the other source lines;
   out1/outn: the same in the output; w1/wn: the columns counted for them;
   keep: lines which fit are kept (footnotes are always refilled); pre/post:
   text around the paragraph *)
Ctx(s1, sn, o1, on, w1, keep, pre, spre) ==
    [s1 |-> s1, sn |-> sn, o1 |-> o1, on |-> on, w1 |-> w1, wn |-> Len(on), keep |-> keep, pre |-> pre, spre |-> spre]
CtxOf(c) ==
    CASE c = "top" -> Ctx("", "", "", "", 0, TRUE, "", "")
      [] c = "quote" -> Ctx("> ", "> ", "> ", "> ", 2, TRUE, "", "")
      [] c = "lazy" -> Ctx("> ", "", "> ", "> ", 2, TRUE, "", "")
      [] c = "quote2" -> Ctx(">> ", ">> ", "> > ", "> > ", 4, TRUE, "", "")
      [] c = "alert" -> Ctx("> ", "> ", "> ", "> ", 2, TRUE, "> [!NOTE]\n", "> [!NOTE]\n")
      [] c = "item" -> Ctx("* ", "  ", " -  ", "    ", 0, TRUE, "", "")
      [] c = "num" -> Ctx("3. ", "   ", "1.  ", "    ", 0, TRUE, "", "")
      [] c = "task" -> Ctx("- [x] ", "  ", " -  [x] ", "    ", 0, TRUE, "", "")
      [] c = "item2" -> Ctx("  ", "  ", "    ", "    ", 0, TRUE, " -  zz\n\n", "* zz\n\n")
      [] c = "nested" -> Ctx("  - ", "    ", "     -  ", "        ", 0, TRUE, " -  zz\n", "* zz\n")
      [] c = "qitem" -> Ctx("> * ", ">   ", ">  -  ", ">     ", 0, TRUE, "", "")
      [] c = "itemq" -> Ctx("  > ", "  > ", "    > ", "    > ", 6, TRUE, " -  zz\n\n", "* zz\n\n")
      [] c = "dd" -> Ctx(": ", "  ", ":   ", "    ", 0, TRUE, "zz\n", "zz\n")
      [] c = "note" -> Ctx("[^n]: ", "    ", "[^n]: ", "      ", 6, FALSE, "zz[^n]\n\n", "zz[^n]\n\n")
C == CtxOf(ctx)

(* ------------------------------------------------------------------ source *)
Definition == IF \E k \in 1..Len(toks) : toks[k].t.ref THEN "\n[q r]: ./u\n" ELSE ""
SepSrc(s) ==
    CASE s = "1" -> " " [] s = "2" -> "  " [] s = "nl" -> "\n" \o C.sn [] s = "hard" -> "  \n" \o C.sn [] s = "hardbs" -> "\\\n" \o C.sn
Src ==
    LET F(e) == (IF e.sep = "" THEN "" ELSE SepSrc(e.sep)) \o (IF e.t.br = <<>> THEN e.t.x ELSE e.t.br[1] \o SepSrc("nl") \o e.t.br[2])
    IN  C.spre \o C.s1 \o Join(Map(F, toks), "") \o "\n" \o Definition

(* --------------------------------------------------------------- behaviour *)
Init ==
    /\ phase = "build" /\ toks = <<>> /\ ti = 0 /\ mode = "none" /\ out = <<>>
    /\ ctx \in (Contexts) /\ width \in (Widths)

Write ==
    /\ phase = "build" /\ Len(toks) < MaxLen
    /\ \E s \in IF toks = <<>> THEN {""} ELSE Choices(IF ctx = "note" THEN Seps \ {"hard", "hardbs"} ELSE Seps) :
         \E t \in Choices({t \in Tokens : ((toks = <<>> \/ s \in Breaks) => (t.bol /\ ~t.glue)) /\ (t.ref => ctx # "note")}) :
           toks' = Append(toks, [t |-> t, sep |-> s])
    /\ UNCHANGED <<phase, ctx, width, ti, mode, out>>

(* the paragraph may not end in a token of its own meaning (a trailing backslash etc.),
   and a hard break needs a following line -- both hold by construction *)
IsHard(s) == s \in {"hard", "hardbs"}
Start ==
    /\ phase = "build" /\ Len(toks) >= MinLen
    /\ phase' = "run" /\ ti' = 1 /\ mode' = "new" /\ out' = <<>>
    /\ UNCHANGED <<ctx, width, toks>>

More == phase = "run" /\ ti <= Len(toks)

(* the source line from token k on: last index, width *)
RECURSIVE LineEnd(_)
LineEnd(k) == IF k = Len(toks) \/ toks[k + 1].sep \in Breaks THEN k ELSE LineEnd(k + 1)
SpaceOf(s) == IF s = "2" THEN 2 ELSE 1
RECURSIVE WidthOf(_, _)
WidthOf(a, b) == IF a = b THEN toks[a].t.w ELSE WidthOf(a, b - 1) + SpaceOf(toks[b].sep) + toks[b].t.w
PrefixW == IF out = <<>> THEN C.w1 ELSE C.wn
(* the segment between hard breaks has a single source line: it is refilled
   directly (which leaves it alone when it fits) *)
Fits(k) == PrefixW + WidthOf(k, LineEnd(k)) <= width

Cell(k, gap) == [k |-> k, gap |-> gap]
LineOf(a, b) == [j \in 1..(b - a + 1) |-> Cell(a + j - 1, IF j = 1 THEN 0 ELSE SpaceOf(toks[a + j - 1].sep))]

AfterSep(k) == IF k > Len(toks) THEN "" ELSE toks[k].sep

(* A source line which fits is kept. *)
KeepLine ==
    /\ More /\ mode \in {"new", "keep"} /\ C.keep /\ Fits(ti)
    /\ LET e == LineEnd(ti) IN
         /\ out' = Append(out, [cells |-> LineOf(ti, e), hard |-> IsHard(AfterSep(e + 1)), kept |-> TRUE])
         /\ ti' = e + 1
         /\ mode' = IF IsHard(AfterSep(e + 1)) THEN "new" ELSE "keep"
    /\ UNCHANGED <<phase, ctx, width, toks>>

(* The first one which does not: from here to the hard break the text is refilled. *)
BeginFill ==
    /\ More /\ mode \in {"new", "keep"} /\ (~C.keep \/ ~Fits(ti))
    /\ out' = Append(out, [cells |-> <<Cell(ti, 0)>>, hard |-> IsHard(AfterSep(ti + 1)), kept |-> FALSE])
    /\ ti' = ti + 1
    /\ mode' = IF IsHard(AfterSep(ti + 1)) THEN "new" ELSE "fill"
    /\ UNCHANGED <<phase, ctx, width, toks>>

CurW(line) ==
    LET RECURSIVE Go(_)
        Go(j) == IF j = 0 THEN 0 ELSE Go(j - 1) + line.cells[j].gap + toks[line.cells[j].k].t.w
    IN  Go(Len(line.cells))
(* at the start of a line the token may be written one column longer *)
EscExtra(line) == LET t == toks[line.cells[1].k].t IN IF t.esc # t.x THEN 1 ELSE 0
Gap(k) == IF toks[k].sep = "2" THEN 2 ELSE 1
(* a space which follows a token counts, unless the token ends the segment *)
Following(k) == IF k = Len(toks) \/ IsHard(AfterSep(k + 1)) THEN 0 ELSE 1
LinePW == IF Len(out) = 1 THEN C.w1 ELSE C.wn

FillFits ==
    LET l == Last(out)
        t == toks[ti].t
    IN  \/ t.glue
        \/ LinePW + CurW(l) + EscExtra(l) + 1 + t.w + Following(ti) <= width
(* two spaces become one rather than making the line too long *)
PlacedGap ==
    LET l == Last(out) IN IF LinePW + CurW(l) + EscExtra(l) + Gap(ti) + toks[ti].t.w > width THEN 1 ELSE Gap(ti)
FillNext ==
    /\ More /\ mode = "fill" /\ FillFits
    /\ out' = [out EXCEPT ![Len(out)].cells = Append(@, Cell(ti, PlacedGap)), ![Len(out)].hard = IsHard(AfterSep(ti + 1))]
    /\ ti' = ti + 1
    /\ mode' = IF IsHard(AfterSep(ti + 1)) THEN "new" ELSE "fill"
    /\ UNCHANGED <<phase, ctx, width, toks>>
FillBreak ==
    /\ More /\ mode = "fill" /\ ~FillFits
    /\ out' = Append(out, [cells |-> <<Cell(ti, 0)>>, hard |-> IsHard(AfterSep(ti + 1)), kept |-> FALSE])
    /\ ti' = ti + 1
    /\ mode' = IF IsHard(AfterSep(ti + 1)) THEN "new" ELSE "fill"
    /\ UNCHANGED <<phase, ctx, width, toks>>
Finish == phase = "run" /\ ti > Len(toks) /\ phase' = "done" /\ UNCHANGED <<ctx, width, toks, ti, mode, out>>

Next == Write \/ Start \/ KeepLine \/ BeginFill \/ FillNext \/ FillBreak \/ Finish
Spec == Init /\ [][Next]_vars

(* --------------------------------------------------------------- rendering *)
CellText(line, j) ==
    LET t == toks[line.cells[j].k].t
        esc == IF j = 1 /\ t.under /\ Len(line.cells) = 1 THEN "\\" \o t.x ELSE IF j = 1 THEN t.esc ELSE t.x
    IN  Rep(" ", line.cells[j].gap) \o esc
LineText(n) ==
    LET line == out[n]
        F(j) == CellText(line, j)
    IN  (IF n = 1 THEN C.o1 ELSE C.on) \o Join(Map(F, [j \in 1..Len(line.cells) |-> j]), "") \o (IF line.hard THEN "  " ELSE "")
Render == C.pre \o Join(Map(LineText, [n \in 1..Len(out) |-> n]), "\n") \o "\n" \o Definition

(* -------------------------------------------------------------- properties *)
Done == phase = "done"
(* every token once, in order *)
AllCells == LET F(l) == l.cells IN Flat(Map(F, out))
NothingLost == Done => (Len(AllCells) = Len(toks) /\ \A j \in 1..Len(AllCells) : AllCells[j].k = j)
(* hard breaks exactly where the author put them *)
HardKept ==
    Done => \A n \in 1..Len(out) :
        LET e == Last(out[n].cells).k IN out[n].hard = (e < Len(toks) /\ IsHard(toks[e + 1].sep))
HardSplits == Done => \A n \in 1..Len(out) : \A j \in 2..Len(out[n].cells) : ~IsHard(toks[out[n].cells[j].k].sep)
(* a line is too long only if it is one token, or because of tags which may not
   start a line *)
CurWTo(line, m) == CurW([line EXCEPT !.cells = SubSeq(@, 1, m)])
WidthOk ==
    Done => \A n \in 1..Len(out) :
        LET l == out[n]
            p == IF n = 1 THEN C.w1 ELSE C.wn
        IN  p + CurW(l) > width =>
                \E m \in 1..Len(l.cells) :
                    /\ \A j \in (m + 1)..Len(l.cells) : toks[l.cells[j].k].t.glue
                    /\ (m = 1 \/ p + CurWTo(l, m) <= width)
(* kept lines are source lines *)
KeptAreLines ==
    Done => \A n \in 1..Len(out) :
        out[n].kept => \A j \in 2..Len(out[n].cells) : toks[out[n].cells[j].k].sep \in {"1", "2"}
(* greedy: the first token of a refilled line did not fit on the line before
   (counting the space that follows it) *)
Greedy ==
    Done => \A n \in 2..Len(out) :
        (~out[n].kept /\ ~out[n - 1].kept /\ ~out[n - 1].hard) =>
            LET k == out[n].cells[1].k IN
            (IF n = 2 THEN C.w1 ELSE C.wn) + CurW(out[n - 1]) + EscExtra(out[n - 1]) + 1 + toks[k].t.w + Following(k) > width
(* and no line is kept after a refill within the segment *)
FillStays ==
    Done => \A n \in 2..Len(out) : (~out[n - 1].kept /\ ~out[n - 1].hard) => ~out[n].kept

Rec == [src |-> Src, out |-> Render, opts |-> [line_width |-> width], n |-> Len(toks)]
Emit == Done => PrintT(ToJson(Rec))
====
