---- MODULE Table ----
(***************************************************************************)
(* Tables (table.rs, escape.rs).  An author writes a table cell by cell --  *)
(* rows may be too short or too long -- in one of several spellings and     *)
(* containers; the system writes it aligned, with every cell, and warns     *)
(* about the rows which do not match the header.  C23, C17.                 *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS MinLen, MaxLen, MaxCols, CellSet, Contexts, Spellings, Choices(_)

VARIABLES phase, ctx, sp, cols, rows, row, ri, out, warn

vars == <<phase, ctx, sp, cols, rows, row, ri, out, warn>>

(* ------------------------------------------------------------------- cells *)
(* s: source, o: what the system writes, w: its display width, ref: an external
   link whose definition follows *)
Cell(s, o, w) == [s |-> s, o |-> o, w |-> w, ref |-> FALSE]
Plain(s, w) == Cell(s, s, w)
Empty == Plain("", 0)
Cells ==
    (IF "basic" \in CellSet THEN {Plain("a", 1), Plain("word", 4), Plain("{W}", 2), Empty} ELSE {})
    \cup (IF "text" \in CellSet THEN {Plain("two words", 9), Plain("abcdefghijk", 11), Plain("-", 1), Plain("7", 1), Plain("x:", 2)} ELSE {})
    \cup (IF "wide" \in CellSet THEN {Plain("{W}{K}{W}", 6), Plain("{E} e", 4), Plain("{C}x", 2), Plain("{A}b{W}", 4), Plain("{FW}", 2)} ELSE {})
    \cup (IF "pipes" \in CellSet THEN {Plain("a\\|b", 4), Plain("\\|", 2), Plain("`p\\|q`", 6), Plain("`\\|\\|`", 6), Plain("*a\\|b*", 6)} ELSE {})
    \cup (IF "inline" \in CellSet THEN {Plain("`x`", 3), Plain("[t](./u)", 8), Plain("*e*", 3), Plain("**b** *c*", 9), Plain("<b>x</b>", 8),
              Plain("![i](./p.png)", 13), Plain("\\*", 2), Plain("`` ` ``", 7), Cell("\"q\"", "{ldq}q{rdq}", 3), Cell("so...", "so{ell}", 3),
              [s |-> "[l](https://e.x/)", o |-> "[l]", w |-> 3, ref |-> TRUE]} ELSE {})

Aligns == {"n", "l", "c", "r"}

(* ---------------------------------------------------------------- containers *)
Ctx(spre, s1, sn, pre, o1, on) == [spre |-> spre, s1 |-> s1, sn |-> sn, pre |-> pre, o1 |-> o1, on |-> on]
CtxOf(c) ==
    CASE c = "top" -> Ctx(<<>>, "", "", <<>>, "", "")
      [] c = "below" -> Ctx(<<"zz">>, "", "", <<"zz", "">>, "", "")
      [] c = "quote" -> Ctx(<<>>, "> ", ">", <<>>, "> ", "> ")
      [] c = "quote2" -> Ctx(<<"> zz", ">">>, "> > ", ">> ", <<"> zz", ">">>, "> > ", "> > ")
      [] c = "alert" -> Ctx(<<"> [!TIP]">>, "> ", "> ", <<"> [!TIP]">>, "> ", "> ")
      [] c = "item" -> Ctx(<<>>, "* ", "  ", <<>>, " -  ", "    ")
      [] c = "item2" -> Ctx(<<"+  zz", "">>, "   ", "   ", <<" -  zz", "">>, "    ", "    ")
      [] c = "num" -> Ctx(<<>>, "7) ", "   ", <<>>, "1.  ", "    ")
      [] c = "itemq" -> Ctx(<<"* zz", "">>, "  > ", "  > ", <<" -  zz", "">>, "    > ", "    > ")
      [] c = "dd" -> Ctx(<<"zz">>, ":   ", "    ", <<"zz">>, ":   ", "    ")
C == CtxOf(ctx)

(* ------------------------------------------------------------------- source *)
(* spellings: full | a | b |, tight |a|b|, wide |  a |b  |, bare a | b, lead | a | b, trail a | b | *)
Leading == sp \notin {"bare", "trail"}
Trailing == sp \notin {"bare", "lead"}
Sep == CASE sp = "tight" -> "|" [] sp = "wide" -> "  |" [] OTHER -> " | "
RowSrc(ss) ==
    (IF ~Leading THEN "" ELSE IF sp = "tight" THEN "|" ELSE IF sp = "wide" THEN "|  " ELSE "| ")
    \o Join(ss, Sep)
    \o (IF ~Trailing THEN "" ELSE IF sp = "tight" THEN "|" ELSE IF sp = "wide" THEN "   |" ELSE " |")
DelimSrc(a) == CASE a = "n" -> "---" [] a = "l" -> ":-" [] a = "c" -> ":-:" [] a = "r" -> "----:"
CellSrc(c) == c.s
Src ==
    LET ls == <<RowSrc(Map(CellSrc, rows[1])), RowSrc(Map(DelimSrc, cols))>> \o [i \in 1..(Len(rows) - 1) |-> RowSrc(Map(CellSrc, rows[i + 1]))]
    IN  C.spre \o [i \in 1..Len(ls) |-> (IF i = 1 THEN C.s1 ELSE C.sn) \o ls[i]]

(* ---------------------------------------------------------------- behaviour *)
Init ==
    /\ phase = "columns" /\ cols = <<>> /\ rows = <<>> /\ row = <<>> /\ ri = 0 /\ out = <<>> /\ warn = <<>>
    /\ ctx \in Contexts /\ sp \in Spellings

AddColumn ==
    /\ phase = "columns" /\ Len(cols) < MaxCols
    /\ \E a \in Choices(Aligns) : cols' = Append(cols, a)
    /\ UNCHANGED <<phase, ctx, sp, rows, row, ri, out, warn>>
Columned ==
    /\ phase = "columns" /\ Len(cols) >= (IF sp = "bare" THEN 2 ELSE 1)
    /\ phase' = "build" /\ UNCHANGED <<ctx, sp, cols, rows, row, ri, out, warn>>

(* a row spelled without outer pipes may neither start nor end with an empty cell,
   nor start with what is a block of its own *)
Fits(c) ==
    /\ rows = <<>> => c.s # "-"     \* would be a delimiter row
    /\ (row = <<>> /\ ~Leading) => c.s \in {"a", "word", "{W}", "7", "`x`", "*e*", "{E} e", "abcdefghijk"}
    /\ ~Trailing => c # Empty
WriteCell ==
    /\ phase = "build" /\ Len(rows) < MaxLen
    /\ IF rows = <<>> THEN Len(row) < Len(cols) ELSE Len(row) <= Len(cols)
    /\ \E c \in Choices({c \in Cells : Fits(c)}) : row' = Append(row, c)
    /\ UNCHANGED <<phase, ctx, sp, cols, rows, ri, out, warn>>
(* the header has as many cells as there are columns; other rows any number *)
EndRow ==
    /\ phase = "build" /\ row # <<>> /\ (rows = <<>> => Len(row) = Len(cols))
    /\ rows' = Append(rows, row) /\ row' = <<>>
    /\ UNCHANGED <<phase, ctx, sp, cols, ri, out, warn>>

(* cells beyond the last column are dropped by the parser, missing ones are empty *)
Normal(r) == [j \in 1..Len(cols) |-> IF j <= Len(r) THEN r[j] ELSE Empty]
Norm == Map(Normal, rows)
ColWidth(j) == LET W == {Norm[i][j].w : i \in 1..Len(rows)} \cup {3} IN CHOOSE w \in W : \A v \in W : v <= w

Pad(c, j) ==
    LET k == ColWidth(j) - c.w
        left == CASE cols[j] = "r" -> k [] cols[j] = "c" -> k \div 2 [] OTHER -> 0
    IN  Rep(" ", left) \o c.o \o Rep(" ", k - left)
Delim(j) ==
    LET w == ColWidth(j)
    IN  CASE cols[j] = "n" -> Rep("-", w) [] cols[j] = "l" -> ":" \o Rep("-", w - 1)
          [] cols[j] = "r" -> Rep("-", w - 1) \o ":" [] cols[j] = "c" -> ":" \o Rep("-", w - 2) \o ":"
Line(ss) == "| " \o Join(ss, " | ") \o " |"

Start ==
    /\ phase = "build" /\ row = <<>> /\ Len(rows) >= MinLen
    /\ phase' = "run" /\ ri' = 1 /\ UNCHANGED <<ctx, sp, cols, rows, row, out, warn>>

(* one row is checked and written *)
Cols == Len(cols)
Outer == (IF Leading THEN 0 ELSE 1) + (IF Trailing THEN 0 ELSE 1)
Pipes(n) == n + 1 - Outer
Message(n) ==
    IF n > Cols
    THEN "table row has " \o ToString(Pipes(n)) \o " pipe characters, expected " \o ToString(Pipes(Cols)) \o " for " \o ToString(Cols)
         \o " columns; unescaped `|` in cell content? (table starts at line " \o ToString(Len(C.spre) + 1) \o ")"
    ELSE "table row has " \o ToString(Pipes(n)) \o " pipe characters, expected at least " \o ToString(Pipes(Cols)) \o " for " \o ToString(Cols)
         \o " columns (table starts at line " \o ToString(Len(C.spre) + 1) \o ")"
WriteRow ==
    /\ phase = "run" /\ ri <= Len(rows)
    /\ out' = out \o <<Line([j \in 1..Cols |-> Pad(Norm[ri][j], j)])>> \o (IF ri = 1 THEN <<Line([j \in 1..Cols |-> Delim(j)])>> ELSE <<>>)
    /\ warn' = IF Len(rows[ri]) = Cols THEN warn ELSE Append(warn, <<Len(C.spre) + (IF ri = 1 THEN 1 ELSE ri + 1), Message(Len(rows[ri]))>>)
    /\ ri' = ri + 1
    /\ UNCHANGED <<phase, ctx, sp, cols, rows, row>>
Finish ==
    /\ phase = "run" /\ ri > Len(rows)
    /\ phase' = "done" /\ UNCHANGED <<ctx, sp, cols, rows, row, ri, out, warn>>

Next == AddColumn \/ Columned \/ WriteCell \/ EndRow \/ Start \/ WriteRow \/ Finish
Spec == Init /\ [][Next]_vars
Done == phase = "done"

(* --------------------------------------------------------------- properties *)
(* every cell within the columns is kept, in its place *)
CellsKept == \A i \in 1..Len(rows) : \A j \in 1..Min(Cols, Len(rows[i])) : Norm[i][j] = rows[i][j]
(* all rows are equally wide: each cell is padded to the width of its column *)
Aligned == Done => \A i \in 1..Len(rows) : \A j \in 1..Cols : ColWidth(j) >= Norm[i][j].w /\ ColWidth(j) >= 3
Tightest == Done => \A j \in 1..Cols : ColWidth(j) = 3 \/ \E i \in 1..Len(rows) : Norm[i][j].w = ColWidth(j)
RowsKept == Done => Len(out) = Len(rows) + 1
WarnExact == Done => {w[1] - Len(C.spre) : w \in Range(warn)} = {i + 1 : i \in {i \in 2..Len(rows) : Len(rows[i]) # Cols}}

HasRef == \E i \in 1..Len(rows) : \E j \in 1..Cols : Norm[i][j].ref
Text ==
    LET ls == C.pre \o [i \in 1..Len(out) |-> (IF i = 1 THEN C.o1 ELSE C.on) \o out[i]]
    IN  Join(ls \o (IF HasRef THEN <<"", "[l]: https://e.x/">> ELSE <<>>), NL) \o NL
Rec == [src |-> Join(Src, NL) \o NL, out |-> Text, warn |-> warn]
Emit == Done => PrintT(ToJson(Rec))
====
