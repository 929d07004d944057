---- MODULE Warn ----
(***************************************************************************)
(* Warnings about undefined references (check_undefined_references_ast).   *)
(* An author writes blocks of lines of pieces -- references in every form, *)
(* and texts which only look like references -- in containers, and defines *)
(* some of the labels; the system walks the document and warns.  C17.      *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS MinLen, MaxLen,      \* number of blocks
          MaxPieces,           \* pieces of a block
          PieceSet, Holders, Extras, Choices(_)

VARIABLES phase, doc, cur, bi, line, warn

vars == <<phase, doc, cur, bi, line, warn>>

(* ------------------------------------------------------------------ pieces *)
(* l: the label a definition would have to define, or "" if this is no
   reference; m: the label as the warning shows it; mid: cannot start a line *)
Pc(s, l) == [s |-> s, l |-> l, m |-> l, mid |-> FALSE]
Mid(s, l) == [Pc(s, l) EXCEPT !.mid = TRUE]
As(s, l, m) == [Pc(s, l) EXCEPT !.m = m]
Pieces ==
    (IF "basic" \in PieceSet THEN {Pc("word", ""), Pc("[undef]", "undef"), Pc("[known]", "known"), Pc("\\[esc]", "")} ELSE {})
    \cup (IF "refs" \in PieceSet THEN
          {Pc("[some text][undef]", "undef"), Pc("[undef][]", "undef"), Pc("[two words]", "two words"), Pc("[x-y_z]", "x-y_z"),
           Pc("[e.g.]", "e.g."), Pc("[1]", "1"), Pc("[{W}{A}]", "{W}{A}"), Pc("[a*b]", "a*b"), Pc("[it's \"so\"]", "it's \"so\""), Pc("![undef]", "undef"),
           Pc("![pic][undef]", "undef"), Pc("([undef])", "undef"), Pc("**[undef]**", "undef"), Mid("*[undef]*", "undef"), Mid("[undef]:", "undef"),
           Pc("[undef].", "undef"), Pc("[undef];", "undef"), Pc("\"[undef]\"", "undef"), Pc("x[undef]y", "undef"), Pc("[**bold**][undef]", "undef"), Pc("[`code`][undef]", "undef"),
           Pc("[a [undef] b]", "undef"), Pc("[[undef]]", "undef"), Pc("\\\\[undef]", "undef"), Pc("[open [undef]", "undef"), Pc("[undef]]", "undef"), Pc("~~[undef]~~", "undef"),
           Pc("[`code`]", "`code`"), Pc("[*em*]", "*em*"), Pc("[a __b__ c]", "a __b__ c"), Pc("**[*x*]**", "*x*"), Pc("[x][`y`]", "`y`"), Mid("[<b>x</b>]", "<b>x</b>")} ELSE {})
    \cup (IF "known" \in PieceSet THEN
          {Pc("[text][known]", "known"), Pc("[known][]", "known"), As("[Known]", "known", "Known"), As("[KNOWN][]", "known", "KNOWN"), As("[t][kNown]", "known", "kNown"),
           Pc("[undef][known]", "known"), Pc("[known][undef]", "undef"), Pc("![known]", "known"), Pc("[`c`][known]", "known"),
           Pc("[also known]", "also known"), As("[Also Known]", "also known", "Also Known"), Pc("[other]", "other")} ELSE {})
    \cup (IF "plain" \in PieceSet THEN
          {Pc("\\[esc]", ""), Pc("\\[esc\\]", ""), Pc("[esc\\]", ""), Mid("[^note]", ""), Pc("`[code]`", ""), Mid("<!-- [c] -->", ""), Mid("<b a=\"[x]\">t</b>", ""),
           Pc("[text](./x)", ""), Pc("[text](<[x]> \"[t]\")", ""), Pc("<https://e.x/?[x]>", ""), Pc("[]", ""), Mid("[ ]", ""), Pc("[*em*](./x)", ""),
           Pc("![pic](./x.png)", ""), Pc("![pic [x]](./x.png)", "x"), Pc("[see [x]](./x)", "x"), Mid("[!NOTE]", ""), Pc("&#91;x]", ""), Pc("[x&#93;", ""), Pc("[open", ""), Pc("close]", ""),
           Pc("\\!\\[x]", ""), Pc("[e](https://e.x/)", ""), Pc("[][]", "")} ELSE {})

(* ----------------------------------------------------------------- holders *)
(* one: takes a single line; p1, pn: prefixes of the first and of other lines;
   above, below: lines which complete the block *)
Hold(above, p1, pn, below, one) == [above |-> above, p1 |-> p1, pn |-> pn, below |-> below, one |-> one]
HolderOf(h, n) ==
    CASE h = "top" -> Hold(<<>>, "", "", <<>>, FALSE)
      [] h = "h2" -> Hold(<<>>, "## ", "", <<>>, TRUE)
      [] h = "h1" -> Hold(<<>>, "# ", "", <<>>, TRUE)
      [] h = "setext" -> Hold(<<>>, "x ", "", <<"---">>, TRUE)
      [] h = "quote" -> Hold(<<>>, "> ", "> ", <<>>, FALSE)
      [] h = "lazy" -> Hold(<<>>, "> x ", "zz ", <<>>, FALSE)
      [] h = "quote2" -> Hold(<<"> a", ">">>, ">> ", ">> ", <<>>, FALSE)
      [] h = "alert" -> Hold(<<"> [!NOTE]">>, "> ", "> ", <<>>, FALSE)
      [] h = "alertt" -> Hold(<<"> [!TIP] title">>, "> x ", "> ", <<>>, FALSE)
      [] h = "item" -> Hold(<<>>, "- ", "  ", <<>>, FALSE)
      [] h = "item2" -> Hold(<<"- a", "- b", "">>, "  ", "  ", <<>>, FALSE)
      [] h = "num" -> Hold(<<"1. a">>, "2. ", "   ", <<>>, FALSE)
      [] h = "task" -> Hold(<<>>, "- [ ] ", "  ", <<>>, FALSE)
      [] h = "nested" -> Hold(<<"- a">>, "  1) ", "     ", <<"- c">>, FALSE)
      [] h = "itemq" -> Hold(<<"* a", "">>, "  > ", "  > ", <<>>, FALSE)
      [] h = "dt" -> Hold(<<>>, "x ", "", <<":   what">>, TRUE)
      [] h = "dd" -> Hold(<<"term">>, ":   ", "    ", <<>>, FALSE)
      [] h = "thead" -> Hold(<<>>, "| ", "", <<"| - |", "| a |">>, TRUE)
      [] h = "tcell" -> Hold(<<"| a |", "| - |">>, "| ", "| ", <<>>, FALSE)
      [] h = "note" -> Hold(<<"See[^n" \o ToString(n) \o "].", "">>, "[^n" \o ToString(n) \o "]: ", "    ", <<>>, FALSE)

(* blocks which define something, or only look as if they did *)
ExtraLines(x) ==
    CASE x = "def" -> <<"[known]: https://k.example/">>
      [] x = "defalso" -> <<"[ALSO KNOWN]: <https://also.example/> 'title'">>
      [] x = "abbr" -> <<"*[undef2]: What it means">>
      [] x = "abbrdef" -> <<"*[HTML]: Hyper Text", "[known]: https://k.example/">>
      [] x = "abbrdef2" -> <<"*[a]: b", "*[c]: d", "  [Other]: https://o.example/">>
      [] x = "code" -> <<"~~~~", "[undef]: https://u.example/", "[known]: x", "*[two words]: x", "[1]", "~~~~">>
      [] x = "icode" -> <<"zz", "", "    [undef]: https://u.example/">>
      [] x = "html" -> <<"<div>", "[undef]: https://u.example/", "*[undef]: x", "</div>">>
      [] x = "para" -> <<"zz zz", "[undef]: https://u.example/">>
      [] x = "quotecode" -> <<"> ~~~~", "[known]: x">>
Defines(x) ==
    CASE x = "def" -> {"known"} [] x = "defalso" -> {"also known"} [] x = "abbrdef" -> {"known"} [] x = "abbrdef2" -> {"other"}
      [] x = "quotecode" -> {"known"}
      [] OTHER -> {}
(* the lines of it which hold references themselves *)
Asks(x) == CASE x = "para" -> <<<<2, "undef">>>> [] OTHER -> <<>>

(* a block: a holder, its lines of pieces, or an extra *)
Blk(h, x) == [h |-> h, x |-> x, ls |-> <<>>]

(* ---------------------------------------------------------------- behaviour *)
NoBlk == Blk("", "")
Init == phase = "build" /\ doc = <<>> /\ cur = NoBlk /\ bi = 0 /\ line = 1 /\ warn = <<>>

(* neighbours which the parser would join, and blocks which end nothing before them *)
Lists == {"item", "item2", "num", "task", "nested", "itemq"}
Quotes == {"quote", "lazy", "quote2", "alert", "alertt"}
Apart(h) ==
    IF doc = <<>> THEN TRUE ELSE
    LET p == Last(doc) IN
    /\ ~(p.h \in Lists /\ h \in Lists) /\ ~(p.h \in Quotes /\ h \in Quotes)
    /\ ~(p.h = "note" /\ h \in Lists) /\ ~(p.h \in {"dd", "dt"} /\ h \in {"dd", "dt", "top", "setext"})
    /\ ~(h \in {"dd", "dt"} /\ p.h \in {"top"})

Open ==
    /\ phase = "build" /\ cur = NoBlk /\ Len(doc) < MaxLen
    /\ \E h \in Choices({h \in Holders : Apart(h)}) : cur' = [Blk(h, "") EXCEPT !.ls = <<<<>>>>]
    /\ UNCHANGED <<phase, doc, bi, line, warn>>
Extra ==
    /\ phase = "build" /\ cur = NoBlk /\ Len(doc) < MaxLen
    /\ \E x \in Choices({x \in Extras : \A j \in 1..Len(doc) : doc[j].x # x}) :
        doc' = Append(doc, Blk("", x))
    /\ UNCHANGED <<phase, cur, bi, line, warn>>
Count == LET F(l) == Len(l) IN LET RECURSIVE Sum(_)  Sum(k) == IF k = 0 THEN 0 ELSE F(cur.ls[k]) + Sum(k - 1) IN Sum(Len(cur.ls))
(* a bracket left open would pair with a later one: nothing follows it *)
Loose == {"[open", "[esc\\]", "[x&#93;"}
Ended == \E j \in 1..Len(cur.ls) : \E p \in Range(cur.ls[j]) : p.s \in Loose
AddPiece ==
    /\ phase = "build" /\ cur # NoBlk /\ Count < MaxPieces /\ ~Ended
    /\ \E p \in Choices({p \in Pieces : p.mid => Last(cur.ls) # <<>>}) :
        cur' = [cur EXCEPT !.ls = Front(@) \o <<Append(Last(@), p)>>]
    /\ UNCHANGED <<phase, doc, bi, line, warn>>
(* a reference may be broken over two lines *)
Broken ==
    {<<Pc("[broken", "broken label"), Pc("label]", "")>>, <<Pc("[see][broken", "broken label"), Pc("label] word", "")>>,
     <<Pc("[also", "also known"), Pc("known].", "")>>, <<Pc("[see", "undef"), Pc("this][undef]", "")>>, <<Pc("[_emph", "_emph x_"), Pc("x_]", "")>>}
AddBroken ==
    /\ phase = "build" /\ cur # NoBlk /\ Count + 1 < MaxPieces /\ ~Ended /\ "broken" \in PieceSet
    /\ ~HolderOf(cur.h, 0).one /\ cur.h \notin {"tcell", "lazy"}
    /\ \E p \in Choices(Broken) : cur' = [cur EXCEPT !.ls = Front(@) \o <<Append(Last(@), p[1]), <<p[2]>>>>]
    /\ UNCHANGED <<phase, doc, bi, line, warn>>
EndLine ==
    /\ phase = "build" /\ cur # NoBlk /\ ~Ended /\ ~HolderOf(cur.h, 0).one /\ Last(cur.ls) # <<>> /\ Count < MaxPieces
    /\ cur' = [cur EXCEPT !.ls = Append(@, <<>>)]
    /\ UNCHANGED <<phase, doc, bi, line, warn>>
Close ==
    /\ phase = "build" /\ cur # NoBlk /\ Last(cur.ls) # <<>>
    /\ doc' = Append(doc, cur) /\ cur' = NoBlk
    /\ UNCHANGED <<phase, bi, line, warn>>
Start ==
    /\ phase = "build" /\ cur = NoBlk /\ Len(doc) >= MinLen
    /\ phase' = "run" /\ bi' = 1 /\ UNCHANGED <<doc, cur, line, warn>>

(* the lines of a block *)
TextOf(p) == p.s
LineOf(l) == Join(Map(TextOf, l), " ")
LinesOf(n) ==
    LET b == doc[n] IN
    IF b.x # "" THEN ExtraLines(b.x)
    ELSE LET h == HolderOf(b.h, n)
         IN  h.above \o [j \in 1..Len(b.ls) |-> (IF j = 1 THEN h.p1 ELSE h.pn) \o LineOf(b.ls[j])] \o h.below

Defined == UNION {Defines(doc[j].x) : j \in {j \in 1..Len(doc) : doc[j].x # ""}}
Message(m) == "undefined reference link: [" \o m \o "]"

(* the walk: one block after the other, its warnings in order *)
Asked(n) ==
    LET b == doc[n] IN
    IF b.x # "" THEN LET F(a) == <<a[1], a[2], a[2]>> IN Map(F, Asks(b.x))
    ELSE LET off == Len(HolderOf(b.h, n).above)
             G(j) == LET ps == SelectSeq(b.ls[j], LAMBDA p : p.l # "")
                         F(p) == <<off + j, p.l, p.m>> IN Map(F, ps)
         IN  Flat([j \in 1..Len(b.ls) |-> G(j)])
Walk ==
    /\ phase = "run" /\ bi <= Len(doc)
    /\ LET F(a) == <<line + a[1] - 1, Message(a[3])>>
           un == SelectSeq(Asked(bi), LAMBDA a : a[2] \notin Defined)
       IN  warn' = warn \o Map(F, un)
    /\ line' = line + Len(LinesOf(bi)) + 1 /\ bi' = bi + 1
    /\ UNCHANGED <<phase, doc, cur>>
Finish ==
    /\ phase = "run" /\ bi > Len(doc)
    /\ phase' = "done" /\ UNCHANGED <<doc, cur, bi, line, warn>>
Next == Open \/ Extra \/ AddPiece \/ AddBroken \/ EndLine \/ Close \/ Start \/ Walk \/ Finish
Spec == Init /\ [][Next]_vars
Done == phase = "done"

(* --------------------------------------------------------------- properties *)
AllLines == LET RECURSIVE Go(_)  Go(n) == IF n > Len(doc) THEN <<>> ELSE LinesOf(n) \o <<"">> \o Go(n + 1) IN Go(1)
(* nothing but the pieces asks for a definition, and every warning lies on a line of theirs *)
Exact ==
    Done => LET F(n) == Asked(n)
                all == Flat([n \in 1..Len(doc) |-> F(n)])
            IN  Len(warn) = Len(SelectSeq(all, LAMBDA a : a[2] \notin Defined))
OnLines == Done => \A w \in Range(warn) : w[1] <= Len(AllLines) /\ AllLines[w[1]] # ""
Rec == [src |-> Join(AllLines, NL), warn |-> warn]
Emit == Done => PrintT(ToJson(Rec))
====
