---- MODULE Punct ----
(***************************************************************************)
(* Typographic punctuation (punctuation.rs) as passes over the characters  *)
(* of a block.  An author writes a block piece by piece -- words with       *)
(* quotes, dots and dashes, markup, code, escapes -- with spaces and breaks *)
(* in between; the system applies the enabled rules.  C19, C04.            *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS MinLen, MaxLen, PieceSet, Contexts, Seps, Opts, Choices(_)

VARIABLES phase, ctx, opt, ps,   \* the author's part: ps = <<[p |-> piece, sep |-> what precedes it]>>
          cs,                    \* the characters
          tail                   \* markup after the last of them

vars == <<phase, ctx, opt, ps, cs, tail>>

(* -------------------------------------------------------------- characters *)
(* c: the character the rules see; o: what is written for it; k: "t" text,
   "f" fixed (code, escapes, addresses); pre: markup before it, which ends runs
   of characters; was: the character of the source *)
Ch(c, o, k, pre) == [c |-> c, o |-> o, k |-> k, pre |-> pre, was |-> c]
T(c) == Ch(c, c, "t", "")
(* the characters of a plain text; the author's "^" is a straight double quote *)
CharsOf(s) == [i \in 1..Len(s) |-> LET c == SubSeq(s, i, i) IN IF c = "^" THEN T("\"") ELSE T(c)]
Fixed(o) == <<Ch("mask", o, "f", "")>>
Code(o) == <<Ch("x", o, "f", "")>>
Url(o, n) == <<Ch("h", o, "f", "")>> \o [i \in 1..n |-> Ch("u", "", "f", "")]
Mark(m, x) == IF x = <<>> THEN <<Ch("", "", "mark", m)>> ELSE <<[Head(x) EXCEPT !.pre = m \o @]>> \o Tail(x)
(* markup around: the closing one is attached to what follows *)
Close(m) == <<Ch("", "", "mark", m)>>

(* ------------------------------------------------------------------ pieces *)
(* cs: its characters (those with c = "" are markup); bol: may start a line;
   glue: may be glued to other text *)
Pc(x) == [x |-> x, bol |-> TRUE, glue |-> FALSE]
Tx(s) == [x |-> CharsOf(s), bol |-> TRUE, glue |-> TRUE]
Mid(p) == [p EXCEPT !.bol = FALSE]
Stiff(p) == [p EXCEPT !.glue = FALSE]

Pieces ==
    (IF "basic" \in PieceSet THEN {Tx("ab"), Tx("^"), Tx("'"), Tx("8")} ELSE {})
    \cup (IF "quotes" \in PieceSet THEN
          {Tx("^ab^"), Tx("'ab'"), Tx("^ab"), Tx("ab^"), Tx("'ab"), Tx("ab'"), Tx("(^ab^)"), Tx("{'ab'}"), Tx("^'ab'^"), Tx("'^ab^'"), Tx("^ab,^"), Tx("'ab.'"),
           Tx("^8^"), Tx("8^"), Tx("8'"), Tx("'a"), Tx("^^"), Tx("ab?^"), Tx("ab!'"), Tx("^,"), Tx("');"), Tx("(^"), Tx("('"), Tx("a^b"),
           Stiff(Tx("[^ab^]")), Stiff(Tx("['ab']")), Stiff(Tx("[^ab^")), Stiff(Tx("['ab")), Stiff(Tx("{^ab^}")), Stiff(Tx("ab^]")), Stiff(Tx("ab']")), Tx("ab^}"), Tx("^;"), Tx("ab':"), Tx("^)"), Tx("[a^"), Tx("^ab^;")} ELSE {})
    \cup (IF "apos" \in PieceSet THEN
          {Tx("it's"), Tx("Ab's"), Tx("goin'"), Tx("'twas"), Tx("'80s"), Tx("80's"), Tx("a'n'b"), Tx("'n'"), Tx("ab's,"), Tx("dogs'"), Tx("dogs'."), Tx("1.2's"),
           Tx("(ab)'s"), Tx("'s"), Tx("'S"), Tx("'st"), Tx("8's-a"), Tx("{ab}'S"), Tx("ab'8"), Tx("s'"), [x |-> CharsOf("caf") \o <<T("{A}")>> \o CharsOf("'s"), bol |-> TRUE, glue |-> TRUE],
           [x |-> <<T("'"), T("{W}")>> \o CharsOf("'"), bol |-> TRUE, glue |-> TRUE]} ELSE {})
    \cup (IF "dots" \in PieceSet THEN
          {Tx("..."), Tx("so..."), Tx("...ab"), Tx("a..b"), Tx("a...b"), Tx("ab...."), Tx("^...^"), Tx("ab...'"), Tx("..."), Tx("(...)"), Tx(".'"), Tx("ab..")} ELSE {})
    \cup (IF "dashes" \in PieceSet THEN
          {Tx("a--b"), Tx("a-b"), Mid(Tx("-")), Mid(Tx("--")), Mid(Tx("---")), Tx("a---b"), Tx("ab--"), Mid(Tx("--ab")), Tx("^--"), Mid(Tx("--^")), Tx("a----b"), Mid(Tx("-a")), Tx("a-"), Tx("8-9"), Mid(Tx("~")), Tx("a~b")} ELSE {})
    \cup (IF "marks" \in PieceSet THEN
          {Pc(Mark("*", CharsOf("^ab^")) \o Close("*")), Pc(Mark("**", CharsOf("'ab'")) \o Close("**")), Pc(CharsOf("^") \o Mark("*", CharsOf("ab")) \o Close("*") \o CharsOf("^")),
           Pc(CharsOf("'") \o Mark("**", CharsOf("ab")) \o Close("**") \o CharsOf("'")),
           Pc(Mark("[", CharsOf("^ab^")) \o Close("](./u--v)")), Pc(Mark("[", CharsOf("ab")) \o Close("](./u)") \o CharsOf("'s")),
           Pc(Mark("[", CharsOf("it's...")) \o Close("](./'q'--...)")), Pc(CharsOf("^") \o Mark("[", CharsOf("ab")) \o Close("](./u)") \o CharsOf("^")),
           Pc(Mark("*", CharsOf("ab")) \o Close("*") \o CharsOf("--") \o Mark("*", CharsOf("ab")) \o Close("*")), Pc(Mark("*", CharsOf("a.")) \o Close("*") \o CharsOf("..b")),
           Pc(Mark("**", CharsOf("ab-")) \o Close("**") \o CharsOf("-ab")), Pc(Mark("[", CharsOf("a")) \o Close("](./u \"it's\")")), Pc(Mark("![", CharsOf("^ab^")) \o Close("](./--p.png)")), Pc(Mark("[*", CharsOf("it's")) \o Close("*](./u)")),
           Mid(Pc(Mark("<b title=\"x...'y'--\">", CharsOf("ab'")) \o Close("</b>"))), Mid(Pc(Close("<!-- \"q\"... -- -->"))), Pc(Mark("**", CharsOf("ab")) \o Close("**") \o CharsOf("'s"))} ELSE {})
    \cup (IF "fixed" \in PieceSet THEN
          {Pc(Code("`c ^d'--...`")), Pc(CharsOf("^") \o Code("`c`") \o CharsOf("^")), Pc(Code("`c`") \o CharsOf("'s")), Pc(CharsOf("'") \o Code("`c`") \o CharsOf("'")), Pc(Code("`\"'--...`")),
           Pc(Url("<https://e.x/a--b...>", 18)), Stiff([x |-> Fixed("\\\""), bol |-> TRUE, glue |-> TRUE]), [x |-> Fixed("\\'") \o CharsOf("ab") \o Fixed("\\'"), bol |-> TRUE, glue |-> TRUE],
           [x |-> Fixed("\\\"") \o CharsOf("ab^"), bol |-> TRUE, glue |-> TRUE], [x |-> CharsOf("ab") \o Fixed("\\.") \o CharsOf(".."), bol |-> TRUE, glue |-> TRUE],
           [x |-> CharsOf("ab-") \o Fixed("\\-") \o CharsOf("ab"), bol |-> TRUE, glue |-> TRUE], [x |-> CharsOf("it") \o Fixed("\\'") \o CharsOf("s"), bol |-> TRUE, glue |-> TRUE],
           Pc(Fixed("&quot;") \o CharsOf("ab") \o Fixed("&quot;")), Pc(CharsOf("it") \o Fixed("&#39;") \o CharsOf("s")), Pc(Fixed("&hellip;") \o CharsOf("..."))} ELSE {})
    \cup (IF "typed" \in PieceSet THEN
          {Pc(<<T("{ldq}")>> \o CharsOf("ab'") \o <<T("{rdq}")>>), Pc(<<T("{lsq}")>> \o CharsOf("^ab") \o <<T("{rsq}")>>), Pc(<<T("{ldq}")>> \o CharsOf("'")), Pc(CharsOf("ab") \o <<T("{ell}")>> \o CharsOf("...")),
           Pc(CharsOf("ab") \o <<T("{em}")>> \o CharsOf("--ab")), Pc(<<T("{ldq}")>> \o CharsOf("^ab")), Pc(CharsOf("it") \o <<T("{rsq}")>> \o CharsOf("s"))} ELSE {})

(* ----------------------------------------------------------------- contexts *)
Ctx(spre, s1, sn, pre, o1, on, one) == [spre |-> spre, s1 |-> s1, sn |-> sn, pre |-> pre, o1 |-> o1, on |-> on, one |-> one, post |-> ""]
CtxOf(c) ==
    CASE c = "top" -> Ctx("", "", "", "", "", "", FALSE)
      [] c = "after" -> Ctx("Say \"so\n\n", "", "", "Say " \o (IF opt.dq THEN "{ldq}" ELSE "\"") \o "so\n\n", "", "", FALSE)
      [] c = "h3" -> Ctx("", "### ", "", "", "### ", "", TRUE)
      [] c = "quote" -> Ctx("", ">", ">", "", "> ", "> ", FALSE)
      [] c = "item" -> Ctx("", "* ", "  ", "", " -  ", "    ", FALSE)
      [] c = "item2" -> Ctx("* 'zz\n", "* ", "  ", " -  " \o (IF opt.sq THEN "{rsq}" ELSE "'") \o "zz\n", " -  ", "    ", FALSE)
      [] c = "dd" -> Ctx("zz\n", ": ", "  ", "zz\n", ":   ", "    ", FALSE)
      [] c = "note" -> Ctx("zz[^n]\n\n", "[^n]: ", "    ", "zz[^n]\n\n", "[^n]: ", "      ", FALSE)
      [] c = "dt" -> [Ctx("", "zz ", "", "", "", "", TRUE) EXCEPT !.post = "\n:   what"]
C == CtxOf(ctx)

(* separators: "1" space, "0" none, "nl" line break, "hard" hard line break *)
SepSrc(s) ==
    CASE s = "1" -> " " [] s = "0" \/ s = "" -> "" [] s = "nl" -> "\n" \o C.sn [] s = "hard" -> "\\\n" \o C.sn
SepChars(s) ==
    CASE s = "1" -> <<T(" ")>> [] s = "0" \/ s = "" -> <<>>
      [] s = "nl" -> <<Ch(" ", IF ctx = "note" THEN " " ELSE "\n" \o C.on, "f", "")>>
      [] s = "hard" -> <<Ch(" ", "  \n" \o C.on, "f", "")>>

PieceSrc(p) == LET F(x) == x.pre \o (IF x.k = "mark" THEN "" ELSE IF x.o = "" THEN "" ELSE x.o) IN Join(Map(F, p.x), "")
Src ==
    LET F(e) == SepSrc(e.sep) \o PieceSrc(e.p)
    IN  C.spre \o C.s1 \o Join(Map(F, ps), "") \o C.post \o "\n"

(* ---------------------------------------------------------------- behaviour *)
Init == phase = "build" /\ ps = <<>> /\ cs = <<>> /\ tail = "" /\ ctx \in (Contexts) /\ opt \in (Opts)

LastGlue == ps # <<>> /\ Last(ps).p.glue
DashEnd(p) == Last(p.x).c \in {"-", ".", "~"}
DashStart(p) == Head(p.x).c \in {"-", ".", "~"}
Allowed == IF C.one THEN Seps \cap {"1", "0"} ELSE IF ctx = "note" THEN Seps \ {"hard"} ELSE Seps
Gluable(p) == p.glue /\ LastGlue /\ ~(DashStart(p) /\ DashEnd(Last(ps).p))
Write ==
    /\ phase = "build" /\ Len(ps) < MaxLen
    /\ \E p \in Choices({p \in Pieces : ps = <<>> => p.bol}) :
         \E s \in IF ps = <<>> THEN {""} ELSE Choices({s \in Allowed : (s \in {"nl", "hard"} => p.bol) /\ (s = "0" => Gluable(p))}) :
           ps' = Append(ps, [p |-> p, sep |-> s])
    /\ UNCHANGED <<phase, ctx, opt, cs, tail>>

(* the characters of the block, with markup attached to the one which follows *)
RECURSIVE Attach(_, _, _, _)
Attach(xs, i, m, acc) ==
    IF i > Len(xs) THEN <<acc, m>>
    ELSE IF xs[i].k = "mark" THEN Attach(xs, i + 1, m \o xs[i].pre, acc)
    ELSE Attach(xs, i + 1, "", Append(acc, [xs[i] EXCEPT !.pre = m \o @]))
Start ==
    /\ phase = "build" /\ Len(ps) >= MinLen
    /\ LET F(e) == SepChars(e.sep) \o e.p.x
           r == Attach((IF ctx = "dt" THEN CharsOf("zz ") ELSE <<>>) \o Flat(Map(F, ps)), 1, "", <<>>)
       IN  cs' = r[1] /\ tail' = r[2]
    /\ phase' = "em" /\ UNCHANGED <<ctx, opt, ps>>

(* ------------------------------------------------------------------- classes *)
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "S", "Q"}
Letter(c) == c \in Lower \cup Upper \cup {"{A}", "{W}"}
Digit(c) == c \in {"0", "1", "2", "8", "9"}
Alnum(c) == Letter(c) \/ Digit(c)
Space(c) == c = " "
AsciiPunct(c) == c \in {"\"", "'", "(", ")", "{", "}", "[", "]", ",", ".", ";", ":", "!", "?", "-", "~"}
(* the character at i of a sequence, "" beyond its ends *)
At(x, i) == IF i < 1 \/ i > Len(x) THEN "" ELSE x[i].c

(* --------------------------------------------------------------------- dashes *)
Matches(x, i, P) ==
    /\ i + Len(P) - 1 <= Len(x)
    /\ \A j \in 1..Len(P) : x[i + j - 1].k = "t" /\ x[i + j - 1].c = P[j] /\ (j > 1 => x[i + j - 1].pre = "")
Blank(c) == c = "" \/ Space(c)
RECURSIVE Dashes(_, _, _, _, _)
Dashes(x, i, P, rep, acc) ==
    IF i > Len(x) THEN acc
    ELSE IF Matches(x, i, P) /\ (Len(P) > 1 \/ (Blank(At(x, i - 1)) /\ Blank(At(x, i + 1))))
         THEN Dashes(x, i + Len(P), P, rep, Append(acc, [x[i] EXCEPT !.c = rep, !.o = rep, !.k = "r"]))
         ELSE Dashes(x, i + 1, P, rep, Append(acc, x[i]))
Pattern(p) == [i \in 1..Len(p) |-> SubSeq(p, i, i)]
EmDash == phase = "em" /\ cs' = (IF opt.em = "" THEN cs ELSE Dashes(cs, 1, Pattern(opt.em), "{em}", <<>>)) /\ phase' = "en" /\ UNCHANGED <<ctx, opt, ps, tail>>
EnDash == phase = "en" /\ cs' = (IF opt.en = "" THEN cs ELSE Dashes(cs, 1, Pattern(opt.en), "{en}", <<>>)) /\ phase' = "ell" /\ UNCHANGED <<ctx, opt, ps, tail>>

(* ------------------------------------------------------------------- ellipses *)
Dots == <<".", ".", ".">>
RECURSIVE Ellipses(_, _, _)
Ellipses(x, i, acc) ==
    IF i > Len(x) THEN acc
    ELSE IF Matches(x, i, Dots)
         THEN Ellipses(x, i + 3, Append(acc, [x[i] EXCEPT !.c = "{ell}", !.o = "{ell}", !.k = "r"]))
         ELSE Ellipses(x, i + 1, Append(acc, x[i]))
Ellipsis == phase = "ell" /\ cs' = (IF opt.ell THEN Ellipses(cs, 1, <<>>) ELSE cs) /\ phase' = "dq" /\ UNCHANGED <<ctx, opt, ps, tail>>

(* --------------------------------------------------------------------- quotes *)
PrevOpens(x, i) == LET c == At(x, i - 1) IN c = "" \/ Space(c) \/ c \in {"(", "[", "{", "{ldq}", "{lsq}"}
NextCloses(x, i) == LET c == At(x, i + 1) IN c = "" \/ Space(c) \/ c \in {".", ",", ";", ":", "!", "?", ")", "]", "}"}
Opening(x, i, expect) ==
    IF PrevOpens(x, i) /\ ~NextCloses(x, i) THEN TRUE
    ELSE IF NextCloses(x, i) /\ ~PrevOpens(x, i) THEN FALSE
    ELSE expect
IsQ(e, q) == e.k = "t" /\ e.c = q
Put(acc, e, c) == Append(acc, [e EXCEPT !.c = c, !.o = c, !.k = "r"])
RECURSIVE Doubles(_, _, _, _)
Doubles(x, i, expect, acc) ==
    IF i > Len(x) THEN acc
    ELSE IF ~IsQ(x[i], "\"") THEN Doubles(x, i + 1, expect, Append(acc, x[i]))
    ELSE IF Opening(x, i, expect) THEN Doubles(x, i + 1, FALSE, Put(acc, x[i], "{ldq}"))
    ELSE Doubles(x, i + 1, TRUE, Put(acc, x[i], "{rdq}"))
DoubleQuotes == phase = "dq" /\ cs' = (IF opt.dq THEN Doubles(cs, 1, TRUE, <<>>) ELSE cs) /\ phase' = "sq" /\ UNCHANGED <<ctx, opt, ps, tail>>

(* an s which ends a word *)
Possessive(x, i) == At(x, i + 1) \in {"s", "S"} /\ ~Letter(At(x, i + 2))
(* an apostrophe, not a quotation mark *)
Apostrophe(x, i, expect) ==
    LET p == At(x, i - 1)  n == At(x, i + 1) IN
    \/ Letter(p) /\ Letter(n)
    \/ expect /\ Letter(p) /\ (n = "" \/ Space(n) \/ AsciiPunct(n) \/ n \in {"{lsq}", "{rsq}"})
    \/ p \in {"]", ")", "}"} /\ Possessive(x, i)
    \/ Digit(p) /\ Possessive(x, i)
    \/ p = "" /\ Possessive(x, i)
ClosesLater(x, i) == \E j \in (i + 1)..Min(Len(x), i + 50) : x[j].c = "'"
RECURSIVE Singles(_, _, _, _)
Singles(x, i, expect, acc) ==
    IF i > Len(x) THEN acc
    ELSE IF ~IsQ(x[i], "'") \/ Apostrophe(x, i, expect) THEN Singles(x, i + 1, expect, Append(acc, x[i]))
    ELSE IF Digit(At(x, i + 1)) THEN Singles(x, i + 1, expect, Put(acc, x[i], "{rsq}"))
    ELSE IF Blank(At(x, i - 1)) /\ Letter(At(x, i + 1)) THEN
        IF ClosesLater(x, i) THEN Singles(x, i + 1, FALSE, Put(acc, x[i], "{lsq}"))
        ELSE Singles(x, i + 1, expect, Put(acc, x[i], "{rsq}"))
    ELSE IF Opening(x, i, expect) THEN Singles(x, i + 1, FALSE, Put(acc, x[i], "{lsq}"))
    ELSE Singles(x, i + 1, TRUE, Put(acc, x[i], "{rsq}"))
SingleQuotes == phase = "sq" /\ cs' = (IF opt.sq THEN Singles(cs, 1, TRUE, <<>>) ELSE cs) /\ phase' = "ap" /\ UNCHANGED <<ctx, opt, ps, tail>>

(* ---------------------------------------------------------------- apostrophes *)
RECURSIVE Aposts(_, _, _, _)
Aposts(x, i, open, acc) ==
    IF i > Len(x) THEN acc
    ELSE IF ~IsQ(x[i], "'") THEN Aposts(x, i + 1, open, Append(acc, x[i]))
    ELSE LET p == At(x, i - 1)  n == At(x, i + 1) IN
         IF \/ Alnum(p) /\ Alnum(n)
            \/ (Alnum(p) \/ p \in {"]", ")", "}", ""}) /\ Possessive(x, i)
         THEN Aposts(x, i + 1, open, Put(acc, x[i], "{rsq}"))
         ELSE IF Blank(p) /\ Alnum(n) THEN Aposts(x, i + 1, open + 1, Append(acc, x[i]))
         ELSE IF Alnum(p) /\ Blank(n) THEN
              IF open > 0 THEN Aposts(x, i + 1, open - 1, Append(acc, x[i])) ELSE Aposts(x, i + 1, open, Put(acc, x[i], "{rsq}"))
         ELSE Aposts(x, i + 1, open, Append(acc, x[i]))
Apostrophes == phase = "ap" /\ cs' = (IF opt.ap THEN Aposts(cs, 1, 0, <<>>) ELSE cs) /\ phase' = "done" /\ UNCHANGED <<ctx, opt, ps, tail>>

Next == Write \/ Start \/ EmDash \/ EnDash \/ Ellipsis \/ DoubleQuotes \/ SingleQuotes \/ Apostrophes
Spec == Init /\ [][Next]_vars
Done == phase = "done"

(* ----------------------------------------------------------------- properties *)
(* with a rule off, its characters stay *)
OnlyEnabled ==
    Done => \A j \in 1..Len(cs) : LET e == cs[j] IN e.k = "r" =>
        CASE e.c \in {"{ldq}", "{rdq}"} -> opt.dq /\ e.was = "\""
          [] e.c \in {"{lsq}", "{rsq}"} -> (opt.sq \/ opt.ap) /\ e.was = "'" /\ (e.c = "{lsq}" => opt.sq)
          [] e.c = "{ell}" -> opt.ell /\ e.was = "."
          [] e.c = "{em}" -> opt.em # "" /\ e.was = Head(Pattern(opt.em))
          [] e.c = "{en}" -> opt.en # "" /\ e.was = Head(Pattern(opt.en))
OffKept == (Done /\ ~opt.dq /\ ~opt.sq /\ ~opt.ap /\ ~opt.ell /\ opt.em = "" /\ opt.en = "") => \A j \in 1..Len(cs) : cs[j].k # "r"
FixedKept == \A j \in 1..Len(cs) : cs[j].k = "f" => cs[j].c = cs[j].was
(* a quotation mark before a word opens, one after a word closes *)
Word(c) == Letter(c) \/ Digit(c)
OpenBefore == Done => \A j \in 1..Len(cs) : (opt.dq /\ cs[j].was = "\"" /\ cs[j].k # "f" /\ Blank(At(cs, j - 1)) /\ Word(At(cs, j + 1))) => cs[j].c = "{ldq}"
CloseAfter == Done => \A j \in 1..Len(cs) : (opt.dq /\ cs[j].was = "\"" /\ cs[j].k # "f" /\ Blank(At(cs, j + 1)) /\ Word(At(cs, j - 1))) => cs[j].c = "{rdq}"
(* an apostrophe within a word *)
WithinWord ==
    Done => \A j \in 1..Len(cs) : (cs[j].was = "'" /\ cs[j].k # "f" /\ Letter(At(cs, j - 1)) /\ Letter(At(cs, j + 1))) =>
        cs[j].c = (IF opt.ap THEN "{rsq}" ELSE "'")
(* no straight double quote is left, and no run of three dots *)
NoneLeft ==
    Done => /\ opt.dq => \A j \in 1..Len(cs) : ~IsQ(cs[j], "\"")
            /\ opt.ell => \A j \in 1..Len(cs) : ~Matches(cs, j, Dots)
            /\ (Len(opt.em) > 1) => \A j \in 1..Len(cs) : ~Matches(cs, j, Pattern(opt.em))

Text ==
    LET F(e) == e.pre \o e.o
    IN  C.pre \o C.o1 \o Join(Map(F, cs), "") \o tail \o C.post \o "\n"
Rec == [src |-> Src, out |-> Text, opts |-> opt.o]
Emit == Done => PrintT(ToJson(Rec))
====
