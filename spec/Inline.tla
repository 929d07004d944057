---- MODULE Inline ----
(***************************************************************************)
(* Inline content (inline.rs, escape.rs, link.rs): what a reader sees of    *)
(* code spans, raw HTML, addresses, titles, autolinks, escaped characters   *)
(* and entities.  An author writes a block piece by piece, each a meaning   *)
(* spelled in one of many ways, in some container; the system may respell,  *)
(* wrap and turn links into references, but the reader sees the same.       *)
(* C04, C02.                                                                *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS MinLen, MaxLen, PieceSet, Contexts, Opts, Depth, Choices(_)

VARIABLES phase, ctx, opt,
          ps,      \* the pieces with what precedes them
          at,      \* how many of them have been read
          seen     \* what a reader has seen so far

vars == <<phase, ctx, opt, ps, at, seen>>

(* --------------------------------------------------------------- contexts *)
(* s1, sn: before the first and the other source lines; post: source after the
   block; b, e: what surrounds the block; one: holds a single line; cell: pipes
   have to be escaped; head: an ATX heading *)
Ctx(spre, s1, sn, post, b, e) == [spre |-> spre, s1 |-> s1, sn |-> sn, post |-> post, b |-> b, e |-> e, one |-> FALSE, cell |-> FALSE, head |-> FALSE]
K(k) == <<k>>
CtxOf(c) ==
    CASE c = "top" -> Ctx("", "", "", "", <<K("<p")>>, <<K(">p")>>)
      [] c = "quote" -> Ctx("", "> ", ">", "", <<K("<bq"), K("<p")>>, <<K(">p"), K(">bq")>>)
      [] c = "lazy" -> Ctx("", "> zz\n", "", "", <<K("<bq"), K("<p"), <<"t", "zz ">>>>, <<K(">p"), K(">bq")>>)
      [] c = "alert" -> Ctx("> [!TIP]\n", "> ", "> ", "", <<K("<alert"), K("<p")>>, <<K(">p"), K(">alert")>>)
      [] c = "item" -> Ctx("", "* ", "  ", "", <<K("<list"), K("<li"), K("<p")>>, <<K(">p"), K(">li"), K(">list")>>)
      [] c = "num" -> Ctx("", "7) ", "   ", "", <<K("<list"), K("<li"), K("<p")>>, <<K(">p"), K(">li"), K(">list")>>)
      [] c = "task" -> Ctx("", "- [x] ", "  ", "", <<K("<list"), K("<task"), K("<p")>>, <<K(">p"), K(">task"), K(">list")>>)
      [] c = "item2" -> Ctx("- zz\n\n", "  ", "  ", "", <<K("<list"), K("<li"), K("<p"), <<"t", "zz">>, K(">p"), K("<p")>>, <<K(">p"), K(">li"), K(">list")>>)
      [] c = "nested" -> Ctx("- zz\n", "  - ", "    ", "", <<K("<list"), K("<li"), K("<p"), <<"t", "zz">>, K(">p"), K("<list"), K("<li"), K("<p")>>,
                             <<K(">p"), K(">li"), K(">list"), K(">li"), K(">list")>>)
      [] c = "dd" -> Ctx("zz\n", ":   ", "    ", "", <<K("<dl"), K("<di"), K("<dt"), K("<p"), <<"t", "zz">>, K(">p"), K(">dt"), K("<dd"), K("<p")>>, <<K(">p"), K(">dd"), K(">di"), K(">dl")>>)
      [] c = "note" -> Ctx("zz[^n]\n\n", "[^n]: ", "    ", "", <<K("<p"), <<"t", "zz">>, <<"fnref", "n">>, K(">p"), K("<fn"), K("<p")>>, <<K(">p"), K(">fn")>>)
      [] c = "h1" -> [Ctx("", "# ", "", "", <<K("<h1")>>, <<K(">h")>>) EXCEPT !.one = TRUE, !.head = TRUE]
      [] c = "h2" -> [Ctx("", "## ", "", " ##", <<K("<h2")>>, <<K(">h")>>) EXCEPT !.one = TRUE, !.head = TRUE]
      [] c = "h4" -> [Ctx("", "#### ", "", "", <<K("<h4")>>, <<K(">h")>>) EXCEPT !.one = TRUE, !.head = TRUE]
      [] c = "setext" -> Ctx("", "", "", "\n---", <<K("<h2")>>, <<K(">h")>>)
      [] c = "dt" -> [Ctx("", "", "", "\n: what", <<K("<dl"), K("<di"), K("<dt"), K("<p")>>, <<K(">p"), K(">dt"), K("<dd"), K("<p"), <<"t", "what">>, K(">p"), K(">dd"), K(">di"), K(">dl")>>) EXCEPT !.one = TRUE]
      [] c = "thead" -> [Ctx("", "|a|", "", "|\n|-|-|", <<K("<table"), K("<tr"), K("<td"), <<"t", "a">>, K(">td"), K("<td")>>, <<K(">td"), K(">tr"), K(">table")>>) EXCEPT !.one = TRUE, !.cell = TRUE]
      [] c = "tcell" -> [Ctx("|a|\n|-|\n", "| ", "", " |", <<K("<table"), K("<tr"), K("<td"), <<"t", "a">>, K(">td"), K(">tr"), K("<tr"), K("<td")>>,
                             <<K(">td"), K(">tr"), K(">table")>>) EXCEPT !.one = TRUE, !.cell = TRUE]
C == CtxOf(ctx)
EveryContext == {"top", "quote", "lazy", "alert", "item", "num", "task", "item2", "nested", "dd", "note", "h1", "h2", "h4", "setext", "dt", "thead", "tcell"}

(* ------------------------------------------------------------------ pieces *)
(* s: source, m: meaning, bol: may start a line, glue: may touch its neighbours,
   ty: holds prose characters which typographic rules rewrite *)
P(s, m) == [s |-> s, m |-> m, bol |-> TRUE, glue |-> FALSE, ty |-> FALSE]
T(x) == <<"t", x>>
Mid(p) == [p EXCEPT !.bol = FALSE]
Glue(p) == [p EXCEPT !.glue = TRUE]
Ty(p) == [p EXCEPT !.ty = TRUE]
Prose(x) == P(x, <<T(x)>>)
Pipe == IF C.cell THEN "\\|" ELSE "|"
NLs == IF C.one THEN " " ELSE "\n" \o C.sn     \* a line break within a piece

Punctuation == {"!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?", "@", "[", "\\", "]", "^", "_", "`", "{", "|", "}", "~"}
Esc(c) == "\\" \o c
Escapes == {Glue(P(Esc(c), <<T(c)>>)) : c \in Punctuation}
Escapes2 == {P(Esc(c) \o Esc(d), <<T(c \o d)>>) : c \in Punctuation, d \in Punctuation}
Wrapped == {P("a" \o Esc(c) \o "b", <<T("a" \o c \o "b")>>) : c \in Punctuation}
EscWords ==
    {P(Esc("*") \o "a" \o Esc("*"), <<T("*a*")>>), P(Esc("_") \o "a_", <<T("_a_")>>), P(Esc("`") \o "a" \o Esc("`"), <<T("`a`")>>), P("1" \o Esc(".") , <<T("1.")>>), P("23" \o Esc(")"), <<T("23)")>>),
     P(Esc("[") \o "a" \o Esc("]") \o "(b)", <<T("[a](b)")>>), P(Esc("!") \o "[l](./u)", <<T("!"), <<"<a", "./u", "">>, T("l"), K(">a")>>), P(Esc("<") \o "b>", <<T("<b>")>>),
     P("a" \o Esc("&") \o "amp;b", <<T("a&amp;b")>>), P(Esc("[") \o "!TIP]", <<T("[!TIP]")>>), P(Esc("[") \o "^n]", <<T("[^n]")>>), P(Esc("#") \o Esc("#") \o " a", <<T("## a")>>),
     P(Esc("-") \o Esc("-") \o Esc("-"), <<T("---")>>), P(Esc(".") \o Esc(".") \o ".", <<T("...")>>), P(Esc("~") \o Esc("~") \o Esc("~"), <<T("~~~")>>), P("*a" \o Esc("*") \o "*", <<K("<em"), T("a*"), K(">em")>>),
     P("_a" \o Esc("_") \o "b_", <<K("<em"), T("a_b"), K(">em")>>), P("**" \o Esc("*") \o "a**", <<K("<strong"), T("*a"), K(">strong")>>), P("C:" \o Esc("\\") \o "dir", <<T("C:\\dir")>>)}

(* entities; the ones of more than one character, and references to nothing, are read as they are written *)
Ent == {<<"&quot;", "\"">>, <<"&amp;", "&">>, <<"&lt;", "<">>, <<"&gt;", ">">>, <<"&nbsp;", "{N}">>, <<"&copy;", "{copy}">>, <<"&#39;", "'">>, <<"&#34;", "\"">>, <<"&#x2d;", "-">>, <<"&#X2D;", "-">>,
        <<"&hellip;", "{ell}">>, <<"&mdash;", "{em}">>, <<"&ndash;", "{en}">>, <<"&ldquo;", "{ldq}">>, <<"&#46;", ".">>, <<"&#42;", "*">>, <<"&ast;", "*">>, <<"&lowbar;", "_">>, <<"&grave;", "`">>, <<"&lbrack;", "[">>,
        <<"&#93;", "]">>, <<"&num;", "#">>, <<"&#35;", "#">>, <<"&Tab;", "{T}">>, <<"&#32;", " ">>, <<"&bsol;", "\\">>, <<"&plus;", "+">>, <<"&equals;", "=">>, <<"&colon;", ":">>, <<"&#0;", "{F}">>,
        <<"&excl;", "!">>, <<"&lpar;", "(">>, <<"&#126;", "~">>, <<"&auml;", "{ae}">>, <<"&#x6F22;", "{W}">>, <<"&zwj;", "{ZWJ}">>, <<"&CounterClockwiseContourIntegral;", "{oint}">>, <<"&fjlig;", "fj">>, <<"&NotEqualTilde;", "{NET}">>, <<"&#xD800;", "{F}">>, <<"&#1114112;", "{F}">>, <<"&DiacriticalGrave;", "`">>, <<"&VerticalLine;", "|">>}
Entities == {Glue(P(e[1], <<T(e[2])>>)) : e \in {e \in Ent : e[1] \notin {"&#32;", "&Tab;", "&nbsp;"}}} \cup {P("a" \o e[1] \o "b", <<T("a" \o e[2] \o "b")>>) : e \in Ent}
EntWords ==
    {P("&verbar;", <<T("|")>>), P("&foo;", <<T("&foo;")>>), P("a&b", <<T("a&b")>>), P("&", <<T("&")>>), P("&amp;lt;", <<T("&lt;")>>), P("&amp;amp;", <<T("&amp;")>>), P("&#;", <<T("&#;")>>), P("&copy", <<T("&copy")>>),
     P("1&#46;", <<T("1.")>>), P("&#45; a", <<T("- a")>>), P("&gt; a", <<T("> a")>>), P("&#91;a&#93;(b)", <<T("[a](b)")>>), P("&lt;b&gt;", <<T("<b>")>>), P("*a&ast;*", <<K("<em"), T("a*"), K(">em")>>),
     P("&#33;[l](./u)", <<T("!"), <<"<a", "./u", "">>, T("l"), K(">a")>>), P("&#60;!\\-- a>", <<T("<!-- a>")>>), P("&#46;&#46;&#46;", <<T("...")>>), P("&quot;a&quot;", <<T("\"a\"")>>)}

(* bare characters of prose *)
Bare ==
    {Prose("a"), Prose("word"), Prose("snake_case_x"), Prose("{W}{W}"), Prose("{A}"), Mid(Prose("*")), Mid(Prose("_")), Mid(Prose("#")), Mid(Prose("##")), Mid(Prose("+")), Mid(Prose("=")), Mid(Prose("==")), Mid(Prose("->")),
     Mid(Prose("1.")), Mid(Prose("12)")), Mid(Prose(":")), Mid(Prose("|" ) ), Mid(Prose("~~~")), Prose("C:\\dir"), Prose("a\\b"), Mid(Prose("\\ b")), Prose("a < b"), Prose("1<2"), Prose("[b"), Prose("b]"), Prose("[b]"), Prose("[l]"), Prose("(b)"),
     Prose("a!"), Mid(Prose("!")), Prose("{c}"), Prose("$x$"), Prose("x^2"), Prose("50%"), Prose("a@b.c"), Prose("https://e.x/a_b_c"), Prose("www.e.x"), Mid(Prose("#tag")), Prose("a#b"), Prose("x=y"), Prose("a+b"), Prose("a/b"), Prose("a;b"), Prose("a?"), Prose("a:"), Mid(Prose("[ ]")), Prose("[^x]"), Mid(Prose("[x]:")), Mid(Prose("<a")), Prose("<3"),
     Prose("\\a"), Prose("~a~"), Prose("~~a~~"), Prose("a|b"), Prose("&c"), Ty(Prose("\"a\"")), Ty(Prose("it's")), Ty(Prose("a...")), Ty(Prose("a--b")), Ty(Mid(Prose("-"))), Ty(Prose("'a'")), Ty(Mid(Prose("---")))}
HeadNot == {"#", "##"}     \* would belong to the heading's closing sequence, or escape it
CellNot == {"|", "a|b"}

(* emphasis *)
Em(x) == <<K("<em")>> \o x \o <<K(">em")>>
St(x) == <<K("<strong")>> \o x \o <<K(">strong")>>
Emphasis ==
    {P("*a b*", Em(<<T("a b")>>)), P("_a_", Em(<<T("a")>>)), P("**a**", St(<<T("a")>>)), P("__a b__", St(<<T("a b")>>)), P("***a***", Em(St(<<T("a")>>))), P("*a **b** c*", Em(<<T("a ")>> \o St(<<T("b")>>) \o <<T(" c")>>)),
     P("**a *b***", St(<<T("a ")>> \o Em(<<T("b")>>))), P("_a *b* c_", Em(<<T("a ")>> \o Em(<<T("b")>>) \o <<T(" c")>>)), P("a*b*c", <<T("a")>> \o Em(<<T("b")>>) \o <<T("c")>>), P("a**b**c", <<T("a")>> \o St(<<T("b")>>) \o <<T("c")>>),
     P("_a_.", Em(<<T("a")>>) \o <<T(".")>>), P("(_a_)", <<T("(")>> \o Em(<<T("a")>>) \o <<T(")")>>), P("*a*b", Em(<<T("a")>>) \o <<T("b")>>), P("a*b*", <<T("a")>> \o Em(<<T("b")>>)), P("*a_b*", Em(<<T("a_b")>>)), P("_a*b_", Em(<<T("a*b")>>)),
     P("__a*b__", St(<<T("a*b")>>)), P("**a_b_**", St(<<T("a_b_")>>)), P("*`x`*", Em(<<<<"codespan", "x">>>>)), P("*[l](./u)*", Em(<<<<"<a", "./u", "">>, T("l"), K(">a")>>)), P("**_a_**", St(Em(<<T("a")>>))), P("_**a** b_", Em(St(<<T("a")>>) \o <<T(" b")>>)),
     P("*a*_b_", Em(<<T("a")>>) \o Em(<<T("b")>>)), P("*a*\\*", Em(<<T("a")>>) \o <<T("*")>>), P("\\**a*", <<T("*")>> \o Em(<<T("a")>>)), P("_a\\__", Em(<<T("a_")>>)), P("**a\\*\\***", St(<<T("a**")>>)), P("*a\\\\*", Em(<<T("a\\")>>)), P("*\\_a*", Em(<<T("_a")>>)),
     P("*<https://e.x/*>*", Em(<<<<"<a", "https://e.x/*", "">>, T("https://e.x/*"), K(">a")>>)), P("*a" \o NLs \o "b*", Em(<<T("a b")>>)), P("__a" \o NLs \o "b__", St(<<T("a b")>>))}

(* ------------------------------------------------------------- code spans *)
CodeAtoms == {"a", " ", "`", "``", Pipe, "\\", "*", "_x_", "'", "\"", "--", "...", "<b>", "&amp;", "[x]", "](", "{W}", "\\`", "#", "~", "it's", "  "}
Lit(a) == IF a = "\\|" THEN "|" ELSE a
Ch(s, i) == SubSeq(s, i, i)
(* the lengths of runs of backticks *)
RECURSIVE Runs(_, _, _)
Runs(s, i, run) ==
    IF i > Len(s) THEN (IF run > 0 THEN {run} ELSE {})
    ELSE IF Ch(s, i) = "`" THEN Runs(s, i + 1, run + 1)
    ELSE (IF run > 0 THEN {run} ELSE {}) \cup Runs(s, i + 1, 0)
Blank(s) == \A i \in 1..Len(s) : Ch(s, i) = " "
CodeOf(s, n, pad) ==
    LET lit == s
        must == Ch(s, 1) = "`" \/ Ch(s, Len(s)) = "`" \/ (Ch(s, 1) = " " /\ Ch(s, Len(s)) = " " /\ ~Blank(s))
        sp == IF must \/ (pad /\ ~Blank(s)) THEN " " ELSE ""
    IN  Glue(P(Rep("`", n) \o sp \o s \o sp \o Rep("`", n), <<<<"codespan", s>>>>))
(* in a table cell pipes are spelled with a backslash *)
RECURSIVE Unpipe(_)
Unpipe(s) == IF Len(s) < 2 THEN s ELSE IF SubSeq(s, 1, 2) = "\\|" THEN "|" \o Unpipe(SubSeq(s, 3, Len(s))) ELSE Ch(s, 1) \o Unpipe(SubSeq(s, 2, Len(s)))
RECURSIVE Contains(_, _)
Contains(s, x) == Len(s) >= Len(x) /\ (SubSeq(s, 1, Len(x)) = x \/ Contains(SubSeq(s, 2, Len(s)), x))
CodeFine(s) == ~(C.cell /\ (Contains(s, "\\\\") \/ Contains(s, "\\`")))
CodeSpan(xs, pad, more) ==
    LET s == Join(xs, "")
        free == {n \in 1..6 : n \notin Runs(s, 1, 0)}
        n == CHOOSE n \in free : \A k \in free : n <= k
        p == CodeOf(s, IF more /\ n + 1 \in free THEN n + 1 ELSE n, pad)
    IN  IF C.cell THEN [p EXCEPT !.m = <<<<"codespan", Unpipe(s)>>>>] ELSE p
CodeLines == {P("`a" \o NLs \o "b`", <<<<"codespan", "a b">>>>), P("`` a`" \o NLs \o "b ``", <<<<"codespan", "a` b">>>>), P("`a--" \o NLs \o "'b'`", <<<<"codespan", "a-- 'b'">>>>),
              P("``a `" \o NLs \o "b``", <<<<"codespan", "a ` b">>>>),
              P("`` a" \o NLs \o "b` ``", <<<<"codespan", "a b`">>>>), P("`` `a" \o NLs \o "b ``", <<<<"codespan", "`a b">>>>), P("`` `" \o NLs \o "` ``", <<<<"codespan", "` `">>>>),
              Mid(P("`" \o NLs \o "a``b" \o NLs \o "`", <<<<"codespan", "a``b">>>>)), P("`" \o NLs \o "a b" \o NLs \o "`", <<<<"codespan", "a b">>>>)}

(* -------------------------------------------------- addresses and titles *)
(* an atom of a destination: meaning, bare spelling, spelling within <...> *)
D(m, b, a) == [m |-> m, b |-> b, a |-> a]
DestAtoms ==
    {D("a", "a", "a"), D("(", "\\(", "("), D(")", "\\)", "\\)"), D("(b)", "(b)", "(b)"), D("(", "&lpar;", "("), D("((", "\\(\\(", "(("), D(" ", "&#32;", "&#32;"), D(" b", "&#32;b", " b"), D("%20", "%20", "%20"), D("\\", "\\\\", "\\\\"), D("\\a", "\\a", "\\a"),
     D("<", "\\<", "\\<"), D("<", "&lt;", "&lt;"), D(">", ">", "\\>"), D("&amp;", "&amp;amp;", "&amp;amp;"), D("&", "&", "&amp;"), D("?x=1&y=2", "?x=1&y=2", "?x=1&amp;y=2"), D("&copy;", "&amp;copy;", "&#38;copy;"),
     D("*", "*", "\\*"), D("_", "_", "_"), D("__x__", "__x__", "__x__"), D("\"", "\"", "\""), D("'", "'", "'"), D("it's", "it's", "it's"), D("--", "--", "--"), D("...", "...", "..."), D("[", "[", "\\["), D("]", "]", "]"), D("]", "\\]", "]"),
     D("`", "\\`", "\\`"), D("#s", "#s", "#s"), D("~", "~", "~"), D("{A}", "{A}", "&eacute;"), D("{W}", "{W}", "{W}"), D("%5B", "%5B", "%5B"), D("!", "!", "\\!"), D("|", Pipe, Pipe), D("]:", "]:", "]:"), D(":", ":", ":")}
Heads == {"./", "https://e.x/", "http://e.x/", "mailto:", "#", "a/", "HTTPS://E.x/", "ftp://e.x/"}

A2(m, s) == [m |-> m, s |-> s]
TitleAtoms(q) ==
    {A2("a", "a"), A2("a b", "a b"), A2("\"", IF q = "\"" THEN "\\\"" ELSE "\""), A2("\"", "&quot;"), A2("'", IF q = "'" THEN "\\'" ELSE "'"), A2("it's", IF q = "'" THEN "it&#39;s" ELSE "it's"),
     A2("(", IF q = "(" THEN "\\(" ELSE "("), A2(")", IF q = "(" THEN "\\)" ELSE ")"), IF q = "(" THEN A2("a", "a") ELSE A2("\\ c", "\\\\ c"), IF q = "(" THEN A2("a", "a") ELSE A2("\\ ", "&bsol; "), A2("\\a", "\\\\a"), A2("&amp;", "&amp;amp;"), A2("&", "&"), A2("--", "--"), A2("...", "..."), A2("*x*", "*x*"),
     A2("`", "\\`"), A2("{A}", "{A}"), A2("<b>", "<b>"), A2("]", "]"), A2("[", "\\["), A2("#", "#"), A2("{ldq}", "{ldq}"), A2("|", Pipe), A2(" ", " "), A2("*", "\\*"), A2("-", "\\-")}
QEnd(q) == IF q = "(" THEN ")" ELSE q

Img1 == <<<<"<img", "./p", "">>, T("i"), K(">img")>>
TextForms == {A2(<<T("l")>>, "l"), A2(<<T("two words")>>, "two words"), A2(Em(<<T("l")>>), "*l*"), A2(St(<<T("l")>>) \o <<T(" m")>>, "**l** m"), A2(<<<<"codespan", "l">>>>, "`l`"), A2(<<T("l*m")>>, "l\\*m"), A2(<<T("l]m")>>, "l\\]m"),
              A2(<<T("[l]")>>, "[l]"), A2(<<T("l"), <<"codespan", "]">>>>, "l`]`"), A2(<<T("l&m")>>, "l&amp;m"), A2(<<T("!l")>>, "!l"), A2(<<T("^l")>>, "\\^l"), A2(<<T("l_m_n")>>, "l_m_n"), A2(<<T("\\l")>>, "\\l"), A2(<<T("l\\")>>, "l\\\\"), A2(<<T("{W}")>>, "{W}"), A2(<<>>, ""),
              A2(Img1, "![i](./p)"), A2(Img1 \o <<T(" l")>>, "![i](./p) l"), A2(<<T("l ")>> \o Img1, "l ![i](./p)"), A2(<<<<"htmlinline", "<b>">>, T("l"), <<"htmlinline", "</b>">>>>, "<b>l</b>"), A2(<<T("1")>>, "1"), A2(<<T("l"), T(" m")>>, "l" \o NLs \o "m"), A2(<<T("l\"m")>>, "l\\\"m")}
(* kind: link or image; hd: start of the address; ds: its atoms; ang: within <...>; ts: the atoms of the title, q its quotes *)
LinkOf(img, tx, hd, ds, ang, ts, q, pad) ==
    LET DM(d) == d.m  DA(d) == d.a  DB(d) == d.b  TM(x) == x.m  TS(x) == x.s
        url == hd \o Join(Map(DM, ds), "")
        dst == IF ang THEN "<" \o hd \o Join(Map(DA, ds), "") \o ">" ELSE hd \o Join(Map(DB, ds), "")
        tm == Join(Map(TM, ts), "")
        tt == IF ts = <<>> THEN "" ELSE pad.mid \o q \o Join(Map(TS, ts), "") \o QEnd(q)
    IN  Glue(P((IF img THEN "!" ELSE "") \o "[" \o tx.s \o "](" \o pad.a \o dst \o tt \o pad.z \o ")",
               <<<<IF img THEN "<img" ELSE "<a", url, tm>>>> \o tx.m \o <<K(IF img THEN ">img" ELSE ">a")>>))
Pads == {[a |-> "", mid |-> " ", z |-> ""], [a |-> " ", mid |-> "  ", z |-> " "]}
        \cup (IF "linknl" \in PieceSet THEN {[a |-> NLs, mid |-> NLs, z |-> NLs], [a |-> "", mid |-> NLs, z |-> ""]} ELSE {})

(* ------------------------------------------------- autolinks and raw HTML *)
Auto(u, t) == Glue(P("<" \o t \o ">", <<<<"<a", u, "">>, T(t), K(">a")>>))
Same(u) == Auto(u, u)
Autolinks ==
    {Same("https://e.x/"), Same("https://e.x/a--b...?c='d'&e=f"), Same("http://e.x/a_b_c*d*"), Same("mailto:a@b.c"), Auto("mailto:a@b.c", "a@b.c"), Auto("mailto:a_b_c@d.e", "a_b_c@d.e"), Same("https://e.x/[a](b)"), Same("https://e.x/&copy"), Same("https://e.x/`a`"), Same("https://e.x/{W}"),
     Same("ftp://e.x/\"q\""), Same("https://e.x/a%20b"), Same("made-up:a--b"), Same("https://e.x/a#b--c"), Same("https://e.x/(a"), Same("https://e.x/a\\b")}
(* links whose text is their address: t, d: how text and address are spelled *)
SelfOf(u, t, d) ==
    {P("[" \o t \o "](" \o d \o ")", <<<<"<a", u, "">>, T(u), K(">a")>>), P("[" \o t \o "](" \o d \o " \"t\")", <<<<"<a", u, "t">>, T(u), K(">a")>>),
     P("[*" \o t \o "*](" \o d \o ")", <<<<"<a", u, "">>>> \o Em(<<T(u)>>) \o <<K(">a")>>), P("[**" \o t \o "**](" \o d \o ")", <<<<"<a", u, "">>>> \o St(<<T(u)>>) \o <<K(">a")>>)}
SelfLinks ==
    UNION {SelfOf(u, u, u) : u \in {"a", "./a", "#s", "README.md", "www.e.x", "a@b.c", "https://e.x/", "ftp://e.x", "mailto:a@b.c", "x:y", "xy:z", "1x:y", "made-up:a", "made+up.x:a", "a/b:c", "HTTP://E.X/", "https://e.x/a&b", "https://e.x/&copy", "?a"}}
    \cup SelfOf("https://e.x/a b", "https://e.x/a b", "<https://e.x/a b>") \cup SelfOf("https://e.x/<", "https://e.x/&lt;", "https://e.x/\\<") \cup SelfOf("https://e.x/>", "https://e.x/>", "https://e.x/>")
    \cup SelfOf("https://e.x/&lt;", "https://e.x/&amp;lt;", "https://e.x/&amp;lt;") \cup SelfOf("https://e.x/x*y", "https://e.x/x\\*y", "https://e.x/x*y") \cup SelfOf("https://e.x/[a]", "https://e.x/\\[a\\]", "https://e.x/[a]")
    \cup SelfOf("a_b_c", "a_b_c", "a_b_c") \cup SelfOf("xy:{W}", "xy:{W}", "xy:{W}") \cup {P("<" \o x[2] \o ">", <<<<"<a", x[1], "">>, T(x[1]), K(">a")>>) : x \in {<<"https://e.x/&lt;", "https://e.x/&amp;lt;">>, <<"ftp://e.x/&", "ftp://e.x/&amp;">>, <<"ftp://e.x/&copy;", "ftp://e.x/&#38;copy;">>}}
    \cup {P("[](<>)", <<<<"<a", "", "">>, K(">a")>>), P("[`xy:z`](xy:z)", <<<<"<a", "xy:z", "">>, <<"codespan", "xy:z">>, K(">a")>>), P("[https://*e*](https://e)", <<<<"<a", "https://e", "">>, T("https://")>> \o Em(<<T("e")>>) \o <<K(">a")>>)}
Html(s) == Glue(Mid(P(s, <<<<"htmlinline", s>>>>)))
HtmlPieces ==
    {Html("<b>"), Html("</b>"), Html("<br/>"), Html("<a href=\"x--y\">"), Html("<a title='its--s'>"), Html("<i a=\"b 'c' d...\">"), Html("<!-- a -->"), Html("<!-- a \"b\"... -- c -->"), Html("<?php echo \"a--b\"; ?>"), Html("<!X a'b'>"), Html("<![CDATA[a--b...]]>"),
     Html("<a href=\"x_y_z*\">"), Html("<i a='&amp;'>"), Html("<i a='`'>"), Html("<x-y z=1>"), Html("<i a=\"[b](c)\">"), Html("<i a=\"\\\\\">")}
HtmlLines == {Mid(P("<i" \o NLs \o "a=\"b\">", <<<<"htmlinline", "<i a=\"b\">">>>>)), Mid(P("<!-- a" \o NLs \o "b -->", <<<<"htmlinline", "<!-- a b -->">>>>))}

(* what begins with a tag, which alone on its line would open an HTML block *)
Tag(src, seenAs) == P(src, <<<<"htmlinline", seenAs>>>>)
Lone == {Tag("<i" \o NLs \o "a=\"b\">", "<i a=\"b\">"), Tag("<x-y a='b--c'" \o NLs \o "d=e" \o NLs \o "/>", "<x-y a='b--c' d=e />"), Tag("<i a=\"b" \o NLs \o "2. c\">", "<i a=\"b 2. c\">"),
         Tag("<img src=\"https://e.x/" \o Rep("a", 30) \o "\"" \o NLs \o "alt=\"" \o Rep("b c ", 20) \o "\">", "<img src=\"https://e.x/" \o Rep("a", 30) \o "\" alt=\"" \o Rep("b c ", 20) \o "\">")}
Led == UNION {{P(x \o y, <<<<"htmlinline", x>>, T(y)>>) : y \in {" c", " " \o Rep("d", 30), " " \o Rep("d", 90), "d"}} : x \in {"<b>", "</b>", "<a href=\"" \o Rep("e", 50) \o "\">", "<a href=\"" \o Rep("e f ", 17) \o "\">", "<br/>"}}
OnTag == (IF C.one THEN {} ELSE {p \in Lone : ctx = "lazy" => ~Contains(p.s, "2.")}) \cup Led

(* --------------------------------------------------------------- behaviour *)
Init ==
    /\ phase = "build" /\ ps = <<>> /\ at = 0 /\ seen = <<>>
    /\ ctx \in (Contexts) /\ opt \in (Opts)

HeadOk(p) == /\ C.head => p.s \notin HeadNot
             /\ C.cell => p.s \notin CellNot /\ Ch(p.s, Len(p.s)) # "\\"
             /\ (ps = <<>>) => p.bol
             /\ p.ty => ~opt.ty
LastP == Last(ps).p
CanGlue(p) ==
    /\ ps # <<>>
    /\ p.glue /\ LastP.glue
    /\ ~(LET a == LastP.s  IN Ch(a, Len(a)) = "`" /\ Ch(p.s, 1) = "`")
    /\ (Ch(p.s, 1) = "<" => p.s # "<b>")
Add(p) ==
    \E s \in IF ps = <<>> THEN {""} ELSE Choices({" "} \cup (IF ~C.one /\ p.bol THEN {"nl"} ELSE {}) \cup (IF CanGlue(p) THEN {""} ELSE {})) :
        ps' = Append(ps, [p |-> p, sep |-> s])
Put(S) == \E p \in Choices({p \in S : HeadOk(p)}) : Add(p)
Seqs(S) == {<<x>> : x \in Choices(S)} \cup (IF Depth < 2 THEN {} ELSE {<<x, y>> : x \in Choices(S), y \in Choices(S)}) \cup (IF Depth < 3 THEN {} ELSE {<<x, y, z>> : x \in Choices(S), y \in Choices(S), z \in Choices(S)})
WriteCode ==
    \E xs \in Choices(Seqs({a \in CodeAtoms : CodeFine(a)})) : \E pad \in Choices(BOOLEAN), more \in Choices(BOOLEAN) :
        LET p == CodeSpan(IF CodeFine(Join(xs, "")) THEN xs ELSE <<"a">>, pad, more) IN Add(p)
WriteLink ==
    \E img \in Choices({FALSE, TRUE}), tx \in Choices(TextForms), hd \in Choices(Heads \ {"#"}), ds \in Choices(Seqs(DestAtoms) \cup {<<>>}), ang \in Choices(BOOLEAN), pad \in Choices(Pads) :
        \E q \in Choices({"\"", "'", "("}) : \E ts \in Choices({<<>>} \cup Seqs(TitleAtoms(q))) :
            Add(LinkOf(img /\ Img1[1] \notin Range(tx.m), tx, hd, ds, ang /\ ~(hd = "a/" /\ pad.a # "" /\ pad.a # " "), ts, q, pad))
WriteOf(set) ==
    CASE set = "esc" -> Put(Escapes)
      [] set = "esc2" -> Put(Escapes2)
      [] set = "escw" -> Put(Wrapped \cup EscWords)
      [] set = "ent" -> Put(Entities)
      [] set = "entw" -> Put(EntWords)
      [] set = "bare" -> Put(Bare)
      [] set = "emph" -> Put(Emphasis)
      [] set = "code" -> WriteCode
      [] set = "codenl" -> Put(CodeLines)
      [] set = "link" -> WriteLink
      [] set = "auto" -> Put(Autolinks)
      [] set = "self" -> Put(SelfLinks)
      [] set = "html" -> IF ps = <<>> THEN Put({x \in Bare : x.bol}) ELSE Put(HtmlPieces)
      [] set = "tag" -> IF ps = <<>> THEN Put(OnTag) ELSE Put({x \in Bare : x.bol})
      [] set = "htmlnl" -> IF ps = <<>> THEN Put({x \in Bare : x.bol}) ELSE Put(HtmlLines)
Write ==
    /\ phase = "build" /\ Len(ps) < MaxLen
    /\ \E set \in Choices(PieceSet \ {"linknl"}) : WriteOf(set)
    /\ UNCHANGED <<phase, ctx, opt, at, seen>>
Start ==
    /\ phase = "build" /\ Len(ps) >= MinLen
    /\ phase' = "run" /\ seen' = C.b /\ UNCHANGED <<ctx, opt, ps, at>>

(* a reader sees one token after the other; neighbouring text is one text *)
RECURSIVE See(_, _, _)
See(acc, m, i) ==
    IF i > Len(m) THEN acc
    ELSE IF m[i][1] = "t" /\ m[i][2] = "" THEN See(acc, m, i + 1)
    ELSE IF acc # <<>> /\ m[i][1] = "t" /\ Last(acc)[1] = "t" THEN See(Append(Front(acc), T(Last(acc)[2] \o m[i][2])), m, i + 1)
    ELSE See(Append(acc, m[i]), m, i + 1)
Read ==
    /\ phase = "run" /\ at < Len(ps)
    /\ LET e == ps[at + 1] IN seen' = See(seen, (IF e.sep \in {" ", "nl"} THEN <<T(" ")>> ELSE <<>>) \o e.p.m, 1)
    /\ at' = at + 1 /\ UNCHANGED <<phase, ctx, opt, ps>>
Finish ==
    /\ phase = "run" /\ at = Len(ps)
    /\ phase' = "done" /\ seen' = See(seen, C.e, 1) /\ UNCHANGED <<ctx, opt, ps, at>>

Next == Write \/ Start \/ Read \/ Finish
Spec == Init /\ [][Next]_vars
Done == phase = "done"

(* --------------------------------------------------------------- properties *)
Kinds(m, k) == Cardinality({i \in 1..Len(m) : m[i][1] = k})
RECURSIVE Count(_, _, _)
Count(i, k, n) == IF i > n THEN 0 ELSE Kinds(ps[i].p.m, k) + Count(i + 1, k, n)
(* every piece which is not prose is seen, once and in order *)
Fixed == {"codespan", "htmlinline", "<a", "<img"}
IsFixed(t) == t[1] \in Fixed
AllSeen == phase \in {"run", "done"} =>
    LET M(i) == SelectSeq(ps[i].p.m, IsFixed)
    IN  SelectSeq(seen, IsFixed) = Flat([i \in 1..at |-> M(i)])
Balanced == Done => \A p \in {<<"<a", ">a">>, <<"<img", ">img">>, <<"<em", ">em">>, <<"<strong", ">strong">>} : Kinds(seen, p[1]) = Kinds(seen, p[2])

Src ==
    LET F(e) == (IF e.sep = "nl" THEN "\n" \o C.sn ELSE e.sep) \o e.p.s
    IN  C.spre \o C.s1 \o Join(Map(F, ps), "") \o C.post \o "\n"
Rec == [src |-> Src, toks |-> seen, opts |-> opt.o]
Emit == Done => PrintT(ToJson(Rec))
====
