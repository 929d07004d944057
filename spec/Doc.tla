---- MODULE Doc ----
(***************************************************************************)
(* The document serializer of hongdown (serialize_document and the         *)
(* reference and footnote bookkeeping) as a state machine over top-level   *)
(* blocks.  An author first builds a document, then the system formats it  *)
(* block by block.                                                         *)
(*                                                                         *)
(* C05 directives, C06 references, C07 footnotes, C09 block layout.        *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS MinLen, MaxLen,   \* lengths of documents
          Menu,      \* kinds of blocks the author may use
          Opts,      \* option records
          Choices(_)

VARIABLES phase,     \* "build", "run", "done"
          doc,       \* the blocks of the document, in source order
          opt,       \* options in force
          i,         \* index of the block being formatted
          st         \* state of the serializer

vars == <<phase, doc, opt, i, st>>

None == "none"

(* ------------------------------------------------------------------ blocks *)
(* A block: kind, its source, its formatted text (both without the final line
   end), heading level, directive, the link uses and footnote references it
   holds, and what it defines. *)
Blk(k, src, fmt) ==
    [k |-> k, src |-> src, fmt |-> fmt, lvl |-> 0, dir |-> "", uses |-> <<>>, fns |-> <<>>,
     name |-> "", def |-> <<>>, spre |-> "", fpre |-> "", asks |-> <<>>]

N(n) == ToString(n)
H(l, src, fmt) == [Blk("h", src, fmt) EXCEPT !.lvl = l]
Dir(d) == [Blk("dir", "<!-- hongdown-" \o d \o " -->", "<!-- hongdown-" \o d \o " -->") EXCEPT !.dir = d]

(* the same, spelled in other ways *)
DirAs(d) ==
    LET D(x) == [Blk("dir", x, x) EXCEPT !.dir = d]
    IN  {D("<!--hongdown-" \o d \o "-->"), D("<!--   hongdown-" \o d \o "\t -->"), D("<!--\nhongdown-" \o d \o "\n-->"), D(" <!-- hongdown-" \o d \o " -->")}

(* A use of a link.  how: "inline", "full", "collapsed", "shortcut", "image"
   (a shortcut reference to an image), "icoll", "ifull", "iinline" (other images),
   "auto", "rel"; after: text which follows. *)
Use(how, text, label, url, title, after) ==
    [how |-> how, text |-> text, label |-> label, url |-> url, title |-> title, after |-> after]

TitleOf(t) == IF t = "" THEN "" ELSE " \"" \o t \o "\""
UseSrc(u) ==
    CASE u.how = "inline" -> "[" \o u.text \o "](" \o u.url \o TitleOf(u.title) \o ")"
      [] u.how = "full" -> "[" \o u.text \o "][" \o u.label \o "]"
      [] u.how = "collapsed" -> "[" \o u.text \o "][]"
      [] u.how = "shortcut" -> "[" \o u.text \o "]"
      [] u.how = "image" -> "![" \o u.text \o "]"
      [] u.how = "icoll" -> "![" \o u.text \o "][]"
      [] u.how = "ifull" -> "![" \o u.text \o "][" \o u.label \o "]"
      [] u.how = "iinline" -> "![" \o u.text \o "](" \o u.url \o TitleOf(u.title) \o ")"
      [] u.how = "auto" -> "<" \o u.url \o ">"
      [] u.how = "rel" -> "[" \o u.text \o "](" \o u.url \o TitleOf(u.title) \o ")"
UsesRef(u) == u.how \in {"full", "collapsed", "shortcut", "image", "icoll", "ifull"}
RefLabel(u) == IF u.how \in {"full", "ifull"} THEN u.label ELSE u.text
External(u) == u.how = "inline"

(* labels are compared without regard to case *)
Norm(l) == CASE l = "ALPHA" -> "alpha" [] l = "Alpha" -> "alpha" [] l = "Beta" -> "beta" [] OTHER -> l

(* a block which holds link uses; spre and fpre: what precedes them in the
   source and in the formatted text *)
PU(k, lvl, us, spre, fpre) == [Blk(k, "", "") EXCEPT !.lvl = lvl, !.uses = us, !.spre = spre, !.fpre = fpre]
P1(n, us) == PU("p", 0, us, "Para" \o N(n) \o " ", "Para" \o N(n) \o " ")
UseBlocks(n, us) ==
    {P1(n, us),
     PU("h", 3, us, "###  Head" \o N(n) \o " ", "Head" \o N(n) \o " "),
     PU("h", 2, us, "## Head" \o N(n) \o " ", "Head" \o N(n) \o " "),
     PU("h", 1, us, "# Head" \o N(n) \o " ", "Head" \o N(n) \o " "),
     PU("alert", 0, us, "> [!tip]\n> Alert" \o N(n) \o " ", "> [!TIP]\n> Alert" \o N(n) \o " "),
     PU("dl", 0, us, "Term" \o N(n) \o "\n: Detail ", "Term" \o N(n) \o "\n:   Detail "),
     PU("list", 0, us, "* Item" \o N(n) \o " ", " -  Item" \o N(n) \o " "),
     PU("list", 0, us, "7) Item" \o N(n) \o "\n8) ", "1.  Item" \o N(n) \o "\n2.  "),
     PU("bq", 0, us, ">Quote" \o N(n) \o " ", "> Quote" \o N(n) \o " "),
     PU("bq", 0, us, ">Quote" \o N(n) \o "\n> - ", "> Quote" \o N(n) \o "\n>\n>  -  ")}
(* no address at all *)
UrlOf(url) == IF url = "" THEN "<>" ELSE url
DefB(lab, url, title) ==
    [Blk("def", "[" \o lab \o "]: " \o UrlOf(url) \o TitleOf(title), "") EXCEPT !.def = <<lab, url, title>>]

(* the same with footnote references (and maybe link uses before them) *)
WithFns(b, names) == [b EXCEPT !.fns = names]
FnUse(n, names) == WithFns(PU("p", 0, <<>>, "Note" \o N(n) \o " has ", "Note" \o N(n) \o " has "), names)
FnUseBlocks(n, names, us) == {WithFns(b, names) : b \in UseBlocks(n, us)}

(* footnote definitions: fmt is the text after the label, tail its further lines *)
FnDef(name, src, fmt, us) ==
    [Blk("fndef", src, fmt) EXCEPT !.name = name, !.uses = us]
FnRefs(name, names) ==
    LET F(x) == "[^" \o x \o "]"
        t == "[^" \o name \o "]: as in " \o Join(Map(F, names), " and ")
    IN  [FnDef(name, t, t, <<>>) EXCEPT !.fns = names]

(* ----------------------------------------------------- what a use becomes *)
HasDef(d, l) == \E j \in 1..Len(d) : d[j].k = "def" /\ Norm(d[j].def[1]) = Norm(l)
FirstDef(d, l) ==
    LET S == {j \in 1..Len(d) : d[j].k = "def" /\ Norm(d[j].def[1]) = Norm(l)}
    IN  d[CHOOSE j \in S : \A x \in S : j <= x].def
Resolved(d, u) == UsesRef(u) /\ HasDef(d, RefLabel(u))
Target(d, u) == IF UsesRef(u) THEN LET f == FirstDef(d, RefLabel(u)) IN <<f[2], f[3]>> ELSE <<u.url, u.title>>

(* Referenced footnote definitions, in order of first reference (the parser
   moves them to the end of the document and drops the others). *)
RECURSIVE RefNames(_, _)
RefNames(d, j) ==
    IF j > Len(d) THEN <<>>
    ELSE (IF d[j].k = "fndef" THEN <<>> ELSE d[j].fns) \o RefNames(d, j + 1)
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE LET r == Dedup(Front(s)) IN IF Last(s) \in Range(r) THEN r ELSE Append(r, Last(s))
DefinedFn(d, nm) == \E j \in 1..Len(d) : d[j].k = "fndef" /\ d[j].name = nm
FnDefOf(d, nm) ==
    LET S == {j \in 1..Len(d) : d[j].k = "fndef" /\ d[j].name = nm} IN d[CHOOSE j \in S : \A x \in S : j <= x]
(* footnotes the text refers to, and then those which footnotes refer to *)
RECURSIVE FnReach(_, _, _)
FnReach(d, s, j) ==
    IF j > Len(s) THEN s
    ELSE FnReach(d, s \o SelectSeq(Dedup(FnDefOf(d, s[j]).fns), LAMBDA nm : DefinedFn(d, nm) /\ nm \notin Range(s)), j + 1)
FnOrder(d) == FnReach(d, SelectSeq(Dedup(RefNames(d, 1)), LAMBDA nm : DefinedFn(d, nm)), 1)
(* where a footnote belongs: at its first reference in the text, or where the first
   footnote which refers to it belongs *)
RECURSIVE FirstFnRef(_, _)
FirstFnRef(d, nm) ==
    LET S == {j \in 1..Len(d) : d[j].k # "fndef" /\ nm \in Range(d[j].fns)}
        o == FnOrder(d)
        P == {j \in 1..Len(o) : nm \in Range(FnDefOf(d, o[j]).fns)}
    IN  IF S # {} THEN CHOOSE j \in S : \A x \in S : j <= x
        ELSE FirstFnRef(d, o[CHOOSE j \in P : \A x \in P : j <= x])
(* what nothing refers to is dropped, and must not be all which refers to something *)
FnNested(d) == \A j \in 1..Len(d) : (d[j].k = "fndef" /\ d[j].name \notin Range(FnOrder(d))) => \A nm \in Range(d[j].fns) : ~DefinedFn(d, nm) \/ nm \in Range(FnOrder(d))

(* Labels the source already gives a meaning: a target, or plain bracketed text. *)
AllUses(d) == LET F(b) == b.uses IN Flat(Map(F, d))
RECURSIVE Reserve(_, _, _)
Reserve(d, us, T) ==
    IF us = <<>> THEN T
    ELSE LET u == Head(us)
             T1 == IF Resolved(d, u) THEN [T EXCEPT ![Norm(RefLabel(u))] = Target(d, u)]
                   ELSE IF UsesRef(u) THEN
                        LET Ls == IF u.how \in {"full", "ifull"} THEN {Norm(u.text), Norm(u.label)} ELSE {Norm(u.text)}
                        IN  [l \in DOMAIN T |-> IF l \in Ls /\ T[l] = <<>> THEN <<"reserved">> ELSE T[l]]
                   ELSE T
         IN  Reserve(d, Tail(us), T1)
Labels == {"alpha", "beta", "Pic", "see", "12", "2", "#7", "gamma", "rel", "Foot", "https://e.example/"}

(* ---------------------------------------------------------------- the menus *)
Uses ==
    {Use("inline", "Alpha", "", "https://a.example/", "", "."),
     Use("inline", "Alpha", "", "https://b.example/", "", "."),
     Use("inline", "Alpha", "", "https://a.example/", "T", "."),
     Use("inline", "Beta", "", "https://b.example/", "", "."),
     Use("inline", "12", "", "https://a.example/12", "", "."),
     Use("inline", "2", "", "https://a.example/2", "", "."),
     Use("inline", "#7", "", "https://a.example/7", "", "(x)"),
     Use("inline", "gamma", "", "http://c.example/", "", "."),
     Use("shortcut", "Alpha", "", "", "", "."),
     Use("shortcut", "ALPHA", "", "", "", "."),
     Use("full", "see", "Alpha", "", "", "."),
     Use("full", "see", "2", "", "", "."),
     Use("collapsed", "Beta", "", "", "", "."),
     Use("image", "Beta", "", "", "", "."),
     Use("icoll", "Beta", "", "", "", "."),
     Use("ifull", "see", "Alpha", "", "", "."),
     Use("ifull", "Pic", "gamma", "", "", "."),
     Use("iinline", "Pic", "", "https://p.example/x.png", "T", "."),
     Use("iinline", "see", "", "./x.png", "", "."),
     Use("shortcut", "12", "", "", "", "."),
     Use("auto", "", "", "https://d.example/", "", "."),
     Use("inline", "https://e.example/", "", "https://e.example/", "T", "."),
     Use("rel", "./x.md", "", "./x.md", "", "."),
     Use("rel", "rel", "", "./x.md", "", ".")}
DefSet == {<<"Alpha", "https://a.example/", "">>, <<"Alpha", "https://z.example/", "">>,
           <<"Beta", "https://b.example/", "B">>, <<"2", "https://two.example/", "">>,
           <<"12", "./twelve.md", "">>, <<"see", "https://s.example/", "">>,
           <<"gamma", "", "">>, <<"see", "", "S">>}

HSrc(l, n) == Rep("#", l) \o " Head " \o N(n)
FnNames == {"a", "b", "1", "2", "10"}
FnDefs(nm) ==
    LET pre == "[^" \o nm \o "]: "
        ind == Rep(" ", Len(pre))
        lind == IF Len(pre) + 1 < 8 THEN ind ELSE "    "   \* more would make it code
    IN  {FnDef(nm, pre \o "text of " \o nm, pre \o "text of " \o nm, <<>>),
         FnDef(nm, pre \o "one\n    more", pre \o "one more", <<>>),
         FnDef(nm, pre \o "one\n\n    two", pre \o "one\n\n" \o ind \o "two", <<>>),
         FnDef(nm, pre \o "with\n\n    - x\n    - y", pre \o "with\n\n" \o lind \o " -  x\n" \o lind \o " -  y", <<>>),
         FnDef(nm, pre \o "see [Alpha](https://a.example/)", pre \o "see ", <<Use("inline", "Alpha", "", "https://a.example/", "", "")>>),
         FnDef(nm, pre \o "see [Foot](https://f.example/)", pre \o "see ", <<Use("inline", "Foot", "", "https://f.example/", "", "")>>)}

SkipDirs == {"disable-next-line", "disable-next-section", "disable", "disable-file"}

(* blocks whose source is not in the canonical form, with their formatted form *)
Ugly(n) ==
    {Blk("list", "*  item" \o N(n) \o "\n*  b", " -  item" \o N(n) \o "\n -  b"),
     Blk("list", "3) item" \o N(n) \o "\n7) b", "1.  item" \o N(n) \o "\n2.  b"),
     Blk("code", "```  rust\ncode" \o N(n) \o "\n```", "~~~~ rust\ncode" \o N(n) \o "\n~~~~"),
     Blk("code", "   ~~~~ c\n     x" \o N(n) \o "\n   ~~~~", "~~~~ c\n  x" \o N(n) \o "\n~~~~"),
     Blk("code", "    x" \o N(n) \o "\n\n      y", "~~~~\nx" \o N(n) \o "\n\n  y\n~~~~"),
     Blk("list", "* a" \o N(n) \o "\n\n      code\n* b", " -  a" \o N(n) \o "\n\n    ~~~~\n    code\n    ~~~~\n\n -  b"),
     Blk("list", "1) a" \o N(n) \o "\n   - b\n2) c", "1.  a" \o N(n) \o "\n     -  b\n2.  c"),
     Blk("table", " |a" \o N(n) \o "|b\\|c|\n  |-|-|\n  |`x\\|y`|d|", "| a" \o N(n) \o (IF n < 10 THEN "     | b\\|c |" ELSE "    | b\\|c |") \o "\n| ------ | ---- |\n| `x\\|y` | d    |"),
     Blk("html", " <div>\n x" \o N(n) \o "\n  </div>", " <div>\n x" \o N(n) \o "\n  </div>"),
     Blk("bq", ">quote" \o N(n) \o "\n>more", "> quote" \o N(n) \o "\n> more")}
UglyP(n) == [Blk("p", "Quoth \"it" \o N(n) \o "\"...", "Quoth {ldq}it" \o N(n) \o "{rdq}{ell}") EXCEPT !.name = ""]
UglySet(n) == Ugly(n) \cup {UglyP(n)}

HtmlB(n) == {Blk("html", "<div>\n  x" \o N(n) \o "\n</div>", "<div>\n  x" \o N(n) \o "\n</div>"),
             Blk("html", "<!-- note" \o N(n) \o " -->", "<!-- note" \o N(n) \o " -->")}

(* every block in several spellings, for the layout menu *)
Spelled(n) ==
    {H(1, "# Head " \o N(n) \o " #", "Head " \o N(n)), H(1, "Head " \o N(n) \o "\n===", "Head " \o N(n)),
     H(1, "Head " \o N(n) \o "\n=================", "Head " \o N(n)),
     H(2, "##   Head " \o N(n) \o "  ", "Head " \o N(n)), H(2, "Head " \o N(n) \o "\n-", "Head " \o N(n)),
     H(2, "{K}{E} Head\n---", "{K}{E} Head"), H(1, "{C}x{W}\n===", "{C}x{W}"),
     H(3, "### Head " \o N(n) \o " ###", "Head " \o N(n)), H(4, "####  Head " \o N(n), "Head " \o N(n)),
     H(6, "###### Head " \o N(n), "Head " \o N(n)),
     Blk("hr", "***", ""), Blk("hr", " _ _ _", ""), Blk("hr", "-----------", ""),
     Blk("code", "    code" \o N(n), "~~~~\ncode" \o N(n) \o "\n~~~~"),
     Blk("code", "``` x\ncode" \o N(n) \o "\n```", "~~~~ x\ncode" \o N(n) \o "\n~~~~"),
     Blk("p", "Text" \o N(n) \o " of\na para.", "Text" \o N(n) \o " of\na para."),
     Blk("p", " Text" \o N(n) \o "   ", "Text" \o N(n)),
     Blk("list", "- one" \o N(n) \o "\n- two", " -  one" \o N(n) \o "\n -  two"),
     Blk("list", "1) one" \o N(n) \o "\n1) two", "1.  one" \o N(n) \o "\n2.  two"),
     Blk("bq", ">  one" \o N(n), "> one" \o N(n)),
     Blk("table", "|a|b|\n|-|:-:|\n|c" \o N(n) \o "|d|", "| a   |  b  |\n| --- | :-: |\n| c" \o N(n) \o (IF n < 10 THEN " " ELSE "") \o " |  d  |"),
     Blk("html", "<p>\nx" \o N(n) \o "\n</p>", "<p>\nx" \o N(n) \o "\n</p>"),
     Blk("alert", "> [!note]\n> x" \o N(n), "> [!NOTE]\n> x" \o N(n)),
     Blk("dl", "term" \o N(n) \o "\n: what", "term" \o N(n) \o "\n:   what")}
(* blocks holding references nothing defines, as <<line of the block, label>> *)
Asking(b, asks) == [b EXCEPT !.asks = asks]
Und(n) ==
    {Asking(Blk("p", "Ask" \o N(n) \o " [undef].", "Ask" \o N(n) \o " [undef]."), <<<<1, "undef">>>>),
     Asking(Blk("p", "Ask" \o N(n) \o "\n[two][gone] and\n[more][]", "Ask" \o N(n) \o "\n[two][gone] and\n[more][]"), <<<<2, "gone">>, <<3, "more">>>>),
     Asking(H(1, "# Ask" \o N(n) \o " [undef]", "Ask" \o N(n) \o " [undef]"), <<<<1, "undef">>>>),
     Asking(H(2, "Ask" \o N(n) \o " [undef]\n--", "Ask" \o N(n) \o " [undef]"), <<<<1, "undef">>>>),
     Asking(H(3, "### Ask" \o N(n) \o " [undef]", "Ask" \o N(n) \o " [undef]"), <<<<1, "undef">>>>),
     Asking(Blk("list", "* a" \o N(n) \o "\n* b\n\n  [undef]", " -  a" \o N(n) \o "\n\n -  b\n\n    [undef]"), <<<<4, "undef">>>>),
     Asking(Blk("bq", "> a" \o N(n) \o "\n> > [undef]", "> a" \o N(n) \o "\n>\n> > [undef]"), <<<<2, "undef">>>>),
     Asking(Blk("code", "    [undef]" \o N(n), "~~~~\n[undef]" \o N(n) \o "\n~~~~"), <<>>),
     Asking(Blk("html", "<p>\n[undef]" \o N(n) \o "\n</p>", "<p>\n[undef]" \o N(n) \o "\n</p>"), <<>>)}
BadRows == "table row has 4 pipe characters, expected 3 for 2 columns; unescaped `|` in cell content? (table starts at line "
BadTable(n) ==
    [Blk("table", "| a | b |\n| - | - |\n| x" \o N(n) \o " | y | z |", "| a   | b   |\n| --- | --- |\n| x" \o N(n) \o (IF n < 10 THEN "  | y   |" ELSE " | y   |"))
     EXCEPT !.name = "badrow"]

FrontB == {Blk("front", "---\ntitle:  x\n---", "---\ntitle:  x\n---")}

BlocksFor(m, n) ==
    CASE m = "p" -> {[Blk("p", "Para" \o N(n) \o " text.", "Para" \o N(n) \o " text.") EXCEPT !.name = ""]}
      [] m = "h" -> {H(l, HSrc(l, n), "Head " \o N(n)) : l \in 1..4}
      [] m = "h23" -> {H(l, HSrc(l, n), "Head " \o N(n)) : l \in 2..3}
      [] m = "dirs" -> {Dir(d) : d \in SkipDirs \cup {"enable"}}
      [] m = "dirspell" -> UNION {DirAs(d) : d \in SkipDirs \cup {"enable"}} \cup DirAs("proper-nouns: Foo, , Bar")
      [] m = "enable" -> {Dir("enable")}
      [] m = "nouns" -> {Dir("proper-nouns: Foo, Bar"), Dir("common-nouns: Go")}
      [] m = "neardirs" -> {Blk("html", "<!-- hongdown-disabled -->", "<!-- hongdown-disabled -->"), Blk("html", "<!-- hongdown-Disable -->", "<!-- hongdown-Disable -->"), Blk("html", "<!-- hongdown disable -->", "<!-- hongdown disable -->"),
                            Blk("html", "<!-- hongdown-disable --> x", "<!-- hongdown-disable --> x"),
                            Blk("p", "x <!-- hongdown-disable -->", "x <!-- hongdown-disable -->")}
      [] m = "ugly" -> UglySet(n)
      [] m = "uglyone" -> {UglyP(n)}
      [] m = "und" -> Und(n)
      [] m = "badtable" -> {BadTable(n)}
      [] m = "html" -> HtmlB(n)
      [] m = "use" -> {P1(n, <<u>>) : u \in Uses}
      [] m = "use2" -> {P1(n, <<u, v>>) : u \in Choices(Uses), v \in Choices(Uses)}
      [] m = "useblk" -> UNION {UseBlocks(n, <<u>>) : u \in Choices(Uses)}
      [] m = "def" -> {DefB(x[1], x[2], x[3]) : x \in DefSet}
      [] m = "fnuse" -> {FnUse(n, <<nm>>) : nm \in FnNames} \cup {FnUse(n, <<"b", "a">>), FnUse(n, <<"10", "2", "a">>)}
      [] m = "fnuseblk" -> UNION {FnUseBlocks(n, <<nm>>, us) : nm \in Choices(FnNames), us \in {<<>>} \cup {<<u>> : u \in Choices(Uses)}}
      [] m = "fnuseh" -> {b \in FnUseBlocks(n, <<"a">>, <<>>) \cup FnUseBlocks(n, <<"b">>, <<>>) : b.k = "h"}
      [] m = "fndef" -> UNION {FnDefs(nm) : nm \in FnNames}
      [] m = "fnnest" -> UNION {{FnRefs(nm, <<x>>) : x \in FnNames} : nm \in FnNames} \cup {FnRefs("a", <<"2", "b">>), FnRefs("2", <<"2", "10">>)}
      [] m = "fndef1" -> {FnDef(nm, "[^" \o nm \o "]: text of " \o nm, "[^" \o nm \o "]: text of " \o nm, <<>>) : nm \in FnNames}
      [] m = "spelled" -> Spelled(n)
      [] m = "front" -> IF n = 1 THEN FrontB ELSE {}

(* Author restrictions: adjacent blocks of these kinds would merge into one
   when parsed, a definition is unique, front matter comes first. *)
Separable(d, b) ==
    IF d = <<>> THEN TRUE ELSE
    LET p == Last(d)
        v == SelectSeq(d, LAMBDA x : x.k \notin {"def", "fndef"})  \* definitions separate nothing in the output
        q == IF v = <<>> THEN p ELSE Last(v) IN
    /\ ~(q.k = "list" /\ b.k = "list")
    /\ ~(q.k \in {"bq", "alert"} /\ b.k \in {"bq", "alert"})
    /\ ~(p.k \in {"list", "fndef", "dl", "code", "alert"} /\ b.k = "code")
    /\ ~(p.k = "dl" /\ b.k \in {"dl", "p"}) /\ ~(p.k = "fndef" /\ b.k \in {"list", "dl"})
    /\ ~(b.k = "dl" /\ p.k = "p")
Unique(d, b) ==
    /\ (b.k = "fndef" => ~DefinedFn(d, b.name))
    /\ (b.k = "def" => ~(\E j \in 1..Len(d) : d[j].k = "def" /\ d[j].def = b.def))

(* ------------------------------------------------------------- the source *)
UsesSrc(us) == LET F(u) == UseSrc(u) \o u.after IN Join(Map(F, us), " ")
FnsSrc(fns) == LET F(n) == "[^" \o n \o "]" IN Join(Map(F, fns), " ")
InlineB(b) == b.k # "fndef" /\ (b.uses # <<>> \/ b.fns # <<>>)
FnTail(b) == (IF b.uses # <<>> /\ b.fns # <<>> THEN " " ELSE "") \o FnsSrc(b.fns)
Src(b) == IF InlineB(b) THEN b.spre \o UsesSrc(b.uses) \o FnTail(b) ELSE b.src
DocSrc(d) == LET F(b) == Src(b) IN Join(Map(F, d), "\n\n") \o NL

(* ------------------------------------------------------- serializer state *)
(* out: what was written, as items
     [t |-> "blk", n |-> index of the block, raw, lvl, x |-> text]
     [t |-> "blank"], [t |-> "ref", lab, url, title], [t |-> "fn", name, x], [t |-> "raw", x]
   refs, emitted, fnpend, fnrefs: as in the implementation. *)
Init0 == [out |-> <<>>, refs |-> <<>>, emitted |-> {}, fnpend |-> <<>>, fnemitted |-> {},
          fnrefs |-> <<>>, skip |-> "none", targets |-> [l \in Labels |-> <<>>]]

AstIdx(d) == SelectSeq([j \in 1..Len(d) |-> j], LAMBDA j : d[j].k \notin {"def", "fndef"})
Nodes(d) == LET ix == AstIdx(d) IN [j \in 1..Len(ix) |-> ix[j]]

Blank(o) == [t |-> "blank", n |-> 0, raw |-> FALSE, lvl |-> 0, x |-> "", lab |-> "", url |-> "", title |-> ""]
Item(t, n, raw, lvl, x) == [t |-> t, n |-> n, raw |-> raw, lvl |-> lvl, x |-> x, lab |-> "", url |-> "", title |-> ""]
RefItem(r) == [t |-> "ref", n |-> 0, raw |-> FALSE, lvl |-> 0, x |-> "", lab |-> r[1], url |-> r[2], title |-> r[3]]
FnItem(nm, x) == [Item("fn", 0, FALSE, 0, x) EXCEPT !.lab = nm]

EnsureBlank(o) == IF o # <<>> /\ Last(o).t = "blank" THEN o ELSE Append(o, Blank(0))

(* insertion into an ordered map: a known key keeps its place, the value is new *)
MapInsert(s, key, v) ==
    IF \E j \in 1..Len(s) : s[j][1] = key
    THEN [j \in 1..Len(s) |-> IF s[j][1] = key THEN v ELSE s[j]]
    ELSE Append(s, v)

NumVal(l) == CASE l = "12" -> 12 [] l = "2" -> 2 [] l = "#7" -> 7 [] l = "1" -> 1 [] l = "10" -> 10 [] OTHER -> -1
NumericLast(s, Lab(_)) ==
    LET nums == SelectSeq(s, LAMBDA r : NumVal(Lab(r)) >= 0)
        rest == SelectSeq(s, LAMBDA r : NumVal(Lab(r)) < 0)
    IN  IF Len(nums) < 2 THEN s ELSE rest \o SortSeq(nums, LAMBDA x, y : NumVal(Lab(x)) < NumVal(Lab(y)))

Lab1(r) == r[1]
FlushRefs(s) ==
    LET rs == SelectSeq(s.refs, LAMBDA r : r[1] \notin s.emitted)
    IN  IF rs = <<>> THEN [s EXCEPT !.refs = <<>>]
        ELSE LET o == NumericLast(rs, Lab1)
                 F(r) == RefItem(r)
             IN  [s EXCEPT !.refs = <<>>, !.out = EnsureBlank(@) \o Map(F, o),
                           !.emitted = @ \cup {r[1] : r \in Range(rs)}]

(* pos: block index of the heading or directive; footnotes first referenced
   before it are due *)
FlushFns(s, pos) ==
    LET due(f) == pos = 0 \/ f[3] < pos
        es == SelectSeq(s.fnpend, LAMBDA f : due(f))
    IN  IF es = <<>> THEN s
        ELSE LET o == NumericLast(es, Lab1)
                 F(f) == FnItem(f[1], f[2])
             IN  [s EXCEPT !.fnpend = SelectSeq(@, LAMBDA f : ~due(f)), !.out = EnsureBlank(@) \o Map(F, o),
                           !.fnemitted = @ \cup {f[1] : f \in Range(es)}]
FlushFnRefs(s, pos) ==
    LET live == SelectSeq(s.fnrefs, LAMBDA r : r[1] \notin s.emitted)
        due(r) == pos = 0 \/ r[4] < pos
        es == SelectSeq(live, LAMBDA r : due(r))
        F(r) == RefItem(r)
    IN  IF es = <<>> THEN [s EXCEPT !.fnrefs = live]
        ELSE [s EXCEPT !.fnrefs = SelectSeq(live, LAMBDA r : ~due(r)), !.out = EnsureBlank(@) \o Map(F, es),
                       !.emitted = @ \cup {r[1] : r \in Range(es)}]
FlushAll(s, pos) == FlushFnRefs(FlushRefs(FlushFns(s, pos)), pos)

(* format one use: the text, and the new state (targets, registered reference) *)
AddRef(s, infn, fnpos, lab, tgt) ==
    IF infn THEN [s EXCEPT !.fnrefs = MapInsert(@, lab, <<lab, tgt[1], tgt[2], fnpos>>)]
    ELSE [s EXCEPT !.refs = MapInsert(@, lab, <<lab, tgt[1], tgt[2]>>)]
FmtUse(d, s, u, infn, fnpos) ==
    IF Resolved(d, u) THEN
        <<UseSrc(u), AddRef(s, infn, fnpos, RefLabel(u), Target(d, u))>>
    ELSE IF External(u) THEN
        LET l == Norm(u.text)
            t == <<u.url, u.title>>
            ok == s.targets[l] = <<>> \/ s.targets[l] = t
            s1 == IF s.targets[l] = <<>> THEN [s EXCEPT !.targets[l] = t] ELSE s
            coll == u.after = "(x)"
        IN  IF ok THEN <<"[" \o u.text \o "]" \o (IF coll THEN "[]" ELSE ""), AddRef(s1, infn, fnpos, u.text, t)>>
            ELSE <<UseSrc(u), s1>>
    ELSE <<UseSrc(u), s>>
RECURSIVE FmtUses(_, _, _, _, _)
FmtUses(d, s, us, infn, fnpos) ==
    IF us = <<>> THEN <<"", s>>
    ELSE LET r == FmtUse(d, s, Head(us), infn, fnpos)
             q == FmtUses(d, r[2], Tail(us), infn, fnpos)
         IN  <<r[1] \o Head(us).after \o (IF Len(us) > 1 THEN " " ELSE "") \o q[1], q[2]>>
SkipUses(d, s, us) ==
    LET rs == SelectSeq(us, LAMBDA u : Resolved(d, u))
        RECURSIVE Go(_, _)
        Go(x, k) == IF k > Len(rs) THEN x ELSE Go(AddRef(x, FALSE, 0, RefLabel(rs[k]), Target(d, rs[k])), k + 1)
    IN  Go(s, 1)

(* unless the label is defined already *)
RECURSIVE AddAbove(_, _, _, _, _)
AddAbove(d, s, us, known, k) ==
    IF k > Len(us) THEN s
    ELSE IF Norm(RefLabel(us[k])) \in known THEN AddAbove(d, s, us, known, k + 1)
    ELSE AddAbove(d, AddRef(s, FALSE, 0, RefLabel(us[k]), Target(d, us[k])), us, known \cup {Norm(RefLabel(us[k]))}, k + 1)

(* heading and thematic break texts depend on the options *)
Setext(l) == (l = 1 /\ opt.setext_h1) \/ (l = 2 /\ opt.setext_h2)
DW(b) == CASE b.fmt = "{K}{E} Head" -> 9 [] b.fmt = "{C}x{W}" -> 4 [] OTHER -> Len(b.fmt)
HeadText(b) ==
    IF Setext(b.lvl) THEN b.fmt \o NL \o Rep(IF b.lvl = 1 THEN "=" ELSE "-", DW(b))
    ELSE Rep("#", b.lvl) \o " " \o b.fmt
FmtText(b) ==
    CASE b.k = "h" -> HeadText(b)
      [] b.k = "hr" -> Rep(" ", opt.hr_lead) \o opt.hr_style
      [] OTHER -> b.fmt

(* --------------------------------------------------------------- behaviour *)
Init == phase = "build" /\ doc = <<>> /\ opt \in Opts /\ i = 0 /\ st = Init0

Fitting(m) == {b \in BlocksFor(m, Len(doc) + 1) : Separable(doc, b) /\ Unique(doc, b)}
Build ==
    /\ phase = "build" /\ Len(doc) < MaxLen
    /\ \E m \in Choices({x \in Menu : Fitting(x) # {}}) : \E b \in Choices(Fitting(m)) : doc' = Append(doc, b)
    /\ UNCHANGED <<phase, opt, i, st>>

(* pre-passes: reserve labels; format all referenced footnote definitions *)
RECURSIVE AddFns(_, _, _)
AddFns(d, s, names) ==
    IF names = <<>> THEN s
    ELSE LET nm == Head(names)
             b == FnDefOf(d, nm)
             pos == FirstFnRef(d, nm)
             r == FmtUses(d, s, b.uses, TRUE, pos)
         IN  AddFns(d, [r[2] EXCEPT !.fnpend = Append(@, <<nm, b.fmt \o r[1], pos>>)], Tail(names))

(* footnote definitions come last in the document tree, so their uses do too;
   those of unreferenced definitions are gone *)
Body(d) == SelectSeq(d, LAMBDA b : b.k # "fndef")
TreeUses(d) ==
    LET F(nm) == FnDefOf(d, nm).uses
    IN  AllUses(Body(d)) \o Flat(Map(F, FnOrder(d)))

(* from a disable-file directive on, definitions stay where they are *)
Raw0(d) == LET S == {j \in 1..Len(d) : d[j].dir = "disable-file"} IN IF S = {} THEN Len(d) + 1 ELSE CHOOSE j \in S : \A x \in S : j <= x
Formatted(d) == SubSeq(d, 1, Raw0(d) - 1)
Start ==
    /\ phase = "build" /\ Len(doc) >= MinLen /\ FnNested(doc)
    /\ phase' = "run" /\ i' = 1
    /\ st' = AddFns(doc, [Init0 EXCEPT !.targets = Reserve(doc, TreeUses(doc), @)], SelectSeq(FnOrder(doc), LAMBDA nm : DefinedFn(Formatted(doc), nm)))
    /\ UNCHANGED <<doc, opt>>

Kids == AstIdx(doc)                     \* children of the document, footnotes aside
Prev == IF i > 1 THEN doc[Kids[i - 1]] ELSE Blk("", "", "")
First == i = 1
Sep(s) == IF First \/ Prev.k = "front" THEN s ELSE [s EXCEPT !.out = Append(@, Blank(0))]
Sep2(s) == [s EXCEPT !.out = @ \o <<Blank(0), Blank(0)>>]
Put(s, it) == [s EXCEPT !.out = Append(@, it)]

(* index of the first of the HTML blocks which end the document *)
RECURSIVE TrailFrom(_)
TrailFrom(j) == IF j >= 1 /\ doc[Kids[j]].k = "html" THEN TrailFrom(j - 1) ELSE j + 1
TrailStart == TrailFrom(Len(Kids))

Cur == doc[Kids[i]]
Pos == Kids[i]
FormatBlock(s, b) ==
    IF InlineB(b) THEN
        LET r == FmtUses(doc, s, b.uses, FALSE, 0)
            x == b.fpre \o r[1] \o FnTail(b)
        IN  Put(r[2], Item("blk", Pos, FALSE, b.lvl, IF b.k = "h" THEN HeadText([b EXCEPT !.fmt = x]) ELSE x))
    ELSE IF b.k = "front" THEN [s EXCEPT !.out = @ \o <<Item("blk", Pos, FALSE, 0, b.fmt)>> \o (IF i = Len(Kids) THEN <<>> ELSE <<Blank(0)>>)]
    ELSE Put(s, Item("blk", Pos, FALSE, b.lvl, FmtText(b)))
RawBlock(s, b) == SkipUses(doc, Put(s, Item("blk", Pos, TRUE, b.lvl, Src(b))), b.uses)

Running == phase = "run" /\ i <= Len(Kids)
Step(s) == st' = s /\ i' = i + 1 /\ UNCHANGED <<phase, doc, opt>>

SkipTrailing == Running /\ i >= TrailStart /\ Cur.k = "html" /\ Step(st)

DirItem == Item("blk", Pos, TRUE, 0, Cur.src)
DisableFile ==
    /\ Running /\ Cur.dir = "disable-file"
    /\ LET rest == SubSeq(doc, Pos + 1, Len(doc))
           tail == IF rest = <<>> THEN <<>> ELSE <<Blank(0), Item("raw", Pos + 1, TRUE, 0, DocSrc(rest))>>
           F(nm) == FnDefOf(rest, nm).uses
           \* what follows may refer to definitions which precede it
           above == SelectSeq(AllUses(Body(rest)) \o Flat(Map(F, SelectSeq(FnOrder(doc), LAMBDA nm : DefinedFn(rest, nm)))), LAMBDA u : Resolved(Formatted(doc), u))
           known == {Norm(r[1]) : r \in Range(st.refs)} \cup {Norm(l) : l \in st.emitted}
           s == FlushAll(AddAbove(doc, st, above, known, 1), 0)
           \* definitions at the very start have nothing before them
           t == IF st.out = <<>> /\ s.out # <<>> THEN [s EXCEPT !.out = Tail(@)] ELSE s
       IN  st' = [Put(IF t.out = <<>> THEN t ELSE [t EXCEPT !.out = EnsureBlank(@)], DirItem) EXCEPT !.out = @ \o tail]
    /\ phase' = "done" /\ UNCHANGED <<doc, opt, i>>
Disable(d, mode) ==
    /\ Running /\ Cur.dir = d
    /\ Step([Put(Sep(FlushAll(st, Pos)), DirItem) EXCEPT !.skip = mode])
Enable == Running /\ Cur.dir = "enable" /\ Step([Put(Sep(st), DirItem) EXCEPT !.skip = "none"])
NounDirective ==
    /\ Running /\ Cur.k = "dir" /\ Cur.dir \notin SkipDirs \cup {"enable"}
    /\ Step(Put(Sep(st), DirItem))

Plain == Running /\ Cur.k # "dir" /\ ~(i >= TrailStart /\ Cur.k = "html")
Spaced(b) ==
    LET s == IF b.lvl \in {2, 3} /\ ~First THEN FlushAll(st, Pos) ELSE st
    IN  IF First \/ Prev.k = "front" THEN s
        ELSE IF b.lvl = 2 /\ Prev.k # "h" THEN Sep2(s) ELSE Sep(s)
Format == Plain /\ st.skip = "none" /\ Step(FormatBlock(Spaced(Cur), Cur))
SectionEnds ==
    /\ Plain /\ st.skip = "section" /\ Cur.lvl \in 1..2
    /\ Step([FormatBlock(Spaced(Cur), Cur) EXCEPT !.skip = "none"])
KeepRaw ==
    /\ Plain /\ st.skip # "none" /\ ~(st.skip = "section" /\ Cur.lvl \in 1..2)
    /\ Step([RawBlock(Spaced(Cur), Cur) EXCEPT !.skip = IF @ = "block" THEN "none" ELSE @])

Trailing ==
    LET F(j) == <<Blank(0), Item("blk", Kids[TrailStart + j - 1], FALSE, 0, doc[Kids[TrailStart + j - 1]].fmt)>>
    IN  Flat(Map(F, [j \in 1..(Len(Kids) - TrailStart + 1) |-> j]))
Finish ==
    /\ phase = "run" /\ i > Len(Kids)
    /\ LET s == FlushAll(st, 0) IN
       st' = IF Trailing = <<>> THEN s
             ELSE IF s.out = <<>> \/ Last(s.out).t = "blank" THEN [s EXCEPT !.out = @ \o Tail(Trailing)]
             ELSE [s EXCEPT !.out = @ \o Trailing]
    /\ phase' = "done" /\ UNCHANGED <<doc, opt, i>>

Run == \/ SkipTrailing \/ DisableFile \/ Disable("disable-next-line", "block") \/ Disable("disable-next-section", "section")
       \/ Disable("disable", "disabled") \/ Enable \/ NounDirective \/ Format \/ SectionEnds \/ KeepRaw \/ Finish
Next == Build \/ Start \/ Run
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ the rendering *)
RefText(r) == "[" \o r.lab \o "]: " \o UrlOf(r.url) \o TitleOf(r.title) \o NL
ItemText(it) ==
    CASE it.t = "blank" -> NL
      [] it.t = "ref" -> RefText(it)
      [] it.t = "fn" -> it.x \o NL
      [] it.t = "raw" -> it.x
      [] OTHER -> it.x \o NL
Render(o) == LET F(it) == ItemText(it)
             IN  Join(Map(F, o), "")

(* -------------------------------------------------------------- properties *)
Done == phase = "done"
Out == st.out
BlkAt(n) == {j \in 1..Len(Out) : Out[j].t = "blk" /\ Out[j].n = n}
RawFrom == LET S == {j \in 1..Len(doc) : doc[j].dir = "disable-file" /\ j \in Range(Kids)} IN S

(* C05: which directive, if any, governs a block -- by the text of the README,
   not by the state machine: the last mode change before it decides. *)
LastDir(n) ==
    LET S == {j \in 1..(n - 1) : doc[j].k = "dir" /\ doc[j].dir \in SkipDirs \cup {"enable"}}
    IN  IF S = {} THEN 0 ELSE CHOOSE j \in S : \A x \in S : x <= j
Between(a, b, T(_)) == \E j \in (a + 1)..(b - 1) : T(doc[j])
InFile(n) == \E j \in 1..(n - 1) : doc[j].dir = "disable-file"
IsNode(b) == b.k \notin {"def", "fndef", "dir"}
Sec(b) == b.lvl \in 1..2
Disabled(n) ==
    LET j == LastDir(n) IN
    /\ j > 0
    /\ CASE doc[j].dir = "disable" -> TRUE
         [] doc[j].dir = "disable-next-line" -> ~Between(j, n, IsNode)
         [] doc[j].dir = "disable-next-section" -> ~Between(j, n, Sec) /\ ~Sec(doc[n])
         [] OTHER -> FALSE
DirectivesExact ==
    Done => \A n \in 1..Len(doc) :
        (IsNode(doc[n]) /\ ~InFile(n)) =>
            /\ Cardinality(BlkAt(n)) = 1
            /\ \A j \in BlkAt(n) :
                 IF Disabled(n) /\ ~(n \in {Kids[x] : x \in TrailStart..Len(Kids)} /\ doc[n].k = "html")
                 THEN Out[j].raw /\ Out[j].x = Src(doc[n]) ELSE ~Out[j].raw
DirectivesKept ==
    Done => \A n \in 1..Len(doc) : (doc[n].k = "dir" /\ ~InFile(n)) =>
        \E j \in BlkAt(n) : Out[j].x = doc[n].src
RestVerbatim ==
    Done => \A n \in 1..Len(doc) : (InFile(n)) => BlkAt(n) = {}
(* order of the blocks is kept (HTML which ends the document may follow the definitions) *)
OrderKept ==
    Done => \A a, b \in 1..Len(Out) :
        (a < b /\ Out[a].t = "blk" /\ Out[b].t = "blk") => Out[a].n < Out[b].n

(* C06 *)
DefsUnique ==
    \A a, b \in 1..Len(Out) : (a # b /\ Out[a].t = "ref" /\ Out[b].t = "ref") => Out[a].lab # Out[b].lab
(* the target a label finally has in the output: the first definition in it
   (raw text at the end may define labels as well, but comes later) *)
OutTarget(l) ==
    LET S == {j \in 1..Len(Out) : Out[j].t = "ref" /\ Norm(Out[j].lab) = Norm(l)}
    IN  IF S = {} THEN <<>> ELSE LET j == CHOOSE j \in S : \A x \in S : j <= x IN <<Out[j].url, Out[j].title>>
ResolvedRight ==
    Done => \A n \in 1..Len(doc) : (doc[n].k \notin {"fndef", "def"} /\ ~InFile(n)) =>
        \A u \in Range(doc[n].uses) :
            IF Resolved(doc, u) THEN OutTarget(RefLabel(u)) = Target(doc, u)
            ELSE UsesRef(u) => OutTarget(RefLabel(u)) = <<>>
(* what is kept as it is after disable-file refers to the same, wherever that is defined *)
Rest0 == SubSeq(doc, Raw0(doc), Len(doc))
RestResolved ==
    Done => \A n \in 1..Len(doc) : (doc[n].k # "def" /\ InFile(n)) =>
        \A u \in Range(doc[n].uses) : Resolved(doc, u) =>
            (IF OutTarget(RefLabel(u)) # <<>> THEN OutTarget(RefLabel(u)) ELSE IF HasDef(Rest0, RefLabel(u)) THEN Target(Rest0, u) ELSE <<>>) = Target(doc, u)
(* everything defined by the end, and before the heading which ends the section of first use *)
SectionEnd(n) ==
    LET S == {j \in (n + 1)..Len(doc) : doc[j].k = "h" /\ doc[j].lvl \in {2, 3}} IN
    IF S = {} THEN 0 ELSE CHOOSE j \in S : \A x \in S : j <= x
DefinedInSection ==
    Done => \A n \in 1..Len(doc) : (doc[n].k \notin {"fndef", "def"} /\ ~InFile(n)) =>
        \A u \in Range(doc[n].uses) : Resolved(doc, u) =>
            \E j \in 1..Len(Out) :
                /\ Out[j].t = "ref" /\ Out[j].lab = RefLabel(u)
                /\ ((SectionEnd(n) > 0 /\ ~InFile(SectionEnd(n))) => (\A h \in BlkAt(SectionEnd(n)) : j < h))
NumericSorted(t) ==
    Done => \A a \in 1..(Len(Out) - 1) :
        (Out[a].t = t /\ Out[a + 1].t = t) =>
            ((NumVal(Out[a].lab) >= 0 /\ NumVal(Out[a + 1].lab) >= 0) =>
                (\/ NumVal(Out[a].lab) <= NumVal(Out[a + 1].lab)
                 \/ t = "ref"))      \* two groups may meet: those of footnotes follow
(* C07 *)
FnOnce == \A a, b \in 1..Len(Out) : (a # b /\ Out[a].t = "fn" /\ Out[b].t = "fn") => Out[a].lab # Out[b].lab
FnPlaced ==
    Done => \A nm \in Range(FnOrder(doc)) :
        LET n == FirstFnRef(doc, nm) IN
        IF DefinedFn(Formatted(doc), nm) THEN
            \E j \in 1..Len(Out) :
                /\ Out[j].t = "fn" /\ Out[j].lab = nm
                /\ \A h \in BlkAt(n) : h < j
                /\ ((SectionEnd(n) > 0 /\ ~InFile(SectionEnd(n))) => (\A h \in BlkAt(SectionEnd(n)) : j < h))
        \* definitions in the rest which is kept as it is stay there
        ELSE ~\E j \in 1..Len(Out) : Out[j].t = "fn" /\ Out[j].lab = nm
FnSorted == NumericSorted("fn")
(* C09: the layout of any two neighbouring pieces of output *)
LayoutOk ==
    Done => \A a \in 1..(Len(Out) - 1) :
        LET x == Out[a]  y == Out[a + 1] IN
        (x.t # "blank" /\ y.t # "blank") =>
            \/ (x.t = "fn" /\ y.t = "fn")
            \/ (x.t = "ref" /\ y.t = "ref")
BlanksOk ==
    Done => \A a \in 2..(Len(Out) - 1) :
        (Out[a].t = "blank" /\ Out[a - 1].t = "blank") =>
            LET y == Out[a + 1] IN y.t = "blk" /\ y.lvl = 2
H2Spaced ==
    Done => \A a \in 3..Len(Out) :
        (Out[a].t = "blk" /\ Out[a].lvl = 2 /\ Out[a - 1].t = "blank") =>
            (Out[a - 2].t = "blank" \/ (Out[a - 2].t = "blk" /\ doc[Out[a - 2].n].k = "front")
               \/ \E b \in 1..(Out[a].n - 1) : doc[b].k = "h")
NoEdgeBlanks == (Done /\ Out # <<>>) => (Last(Out).t # "blank" /\ Head(Out).t # "blank")

(* C17: the warnings, for what is formatted and lies in no region the README calls disabled *)
RECURSIVE LinesIn(_, _)
LinesIn(s, k) == IF k > Len(s) THEN 1 ELSE LinesIn(s, k + 1) + (IF SubSeq(s, k, k) = NL THEN 1 ELSE 0)
RECURSIVE StartLine(_)
StartLine(n) == IF n = 1 THEN 1 ELSE StartLine(n - 1) + LinesIn(Src(doc[n - 1]), 1) + 1
Undefined(u) == UsesRef(u) /\ ~Resolved(doc, u)
WarnsOf(n) ==
    LET b == doc[n]
        l == StartLine(n)
        ref(k, lab) == <<l + k - 1, "undefined reference link: [" \o lab \o "]">>
        A(a) == ref(a[1], a[2])
        U(u) == ref(LinesIn(b.spre, 1), RefLabel(u))
    IN  IF b.k = "dir" \/ InFile(n) \/ Disabled(n) THEN <<>>
        ELSE Map(A, b.asks) \o Map(U, SelectSeq(b.uses, Undefined))
             \o (IF b.name = "badrow" THEN <<<<l + 2, BadRows \o ToString(l) \o ")">>>> ELSE <<>>)
Warns == Flat([n \in 1..Len(doc) |-> WarnsOf(n)])
(* the same by what the serializer did: the blocks it reproduced raw give none *)
RawWarnsNot ==
    Done => \A n \in 1..Len(doc) : (IsNode(doc[n]) /\ WarnsOf(n) # <<>>) => \A j \in BlkAt(n) : ~Out[j].raw
WarnRec == [src |-> DocSrc(doc), out |-> Render(Out), opts |-> opt.o, warn |-> Warns]
EmitWarn == Done => PrintT(ToJson(WarnRec))

Rec == [src |-> DocSrc(doc), out |-> Render(Out), opts |-> opt.o, n |-> Len(doc)]
Emit == Done => PrintT(ToJson(Rec))
====
