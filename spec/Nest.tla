---- MODULE Nest ----
(***************************************************************************)
(* Containers (list.rs, block.rs, document.rs): block quotes, alerts,       *)
(* bullet, ordered and task lists, description lists, and the blocks in     *)
(* them, nested in each other.  An author builds a document bottom up,      *)
(* pushing blocks on a stack and wrapping the topmost ones in containers,   *)
(* spelled in one of many ways; the system writes the canonical spelling.   *)
(* C20, C24, and the structural part of C01, C02 and C03.                   *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS MinLen, MaxLen, Leaves, Wraps, Shapes, Styles, Opts, Choices(_)

VARIABLES phase, opt, n, stack, out

vars == <<phase, opt, n, stack, out>>

(* ------------------------------------------------------------------ nodes *)
(* k: kind; x: text or spelling; t: "t"ight, "l"oose or "h"alf loose (blank lines
   between items, not before nested lists); ch: children, grouped in items *)
Node(k, x, t, ch) == [k |-> k, x |-> x, t |-> t, ch |-> ch]
Leaf(k) == IF k = "am" THEN Node("p", "[!Tip]", "", <<>>) ELSE Node(k, k \o ToString(n), "", <<>>)
(* a quote which begins with the text of an alert marker, without being an alert *)
Marked(b) == b.k = "bq" /\ b.ch[1][1].x = "[!Tip]"

IsList(b) == b.k \in {"ul", "ol", "task"}
IsQuote(b) == b.k \in {"bq", "alert"}

(* Blocks of one kind which would merge, or be read otherwise, without something
   in between *)
Marker(l) ==  \* what the source has next to the markers of a list, or in place of its numbers
    IF l.k # "ol" THEN SubSeq(l.x, 1, 1) ELSE IF l.x \in {". ", "1.   "} THEN "." ELSE ")"
Apart(a, b) ==
    \/ IsList(a) /\ ((IsList(b) /\ Marker(a) = Marker(b)) \/ b.k = "icode")
    \/ a.k = "dl" /\ (b.k \in {"dl", "icode", "ul", "ol", "task"})
    \/ a.k = "icode" /\ (b.k = "icode" \/ IsList(b))
RECURSIVE Fix(_, _)
Fix(bs, i) ==
    IF i > Len(bs) THEN <<>>
    ELSE (IF i > 1 /\ Apart(bs[i - 1], bs[i]) THEN <<Node("p", "sep", "", <<>>)>> ELSE <<>>) \o <<bs[i]>> \o Fix(bs, i + 1)

(* Blocks which can follow each other without a blank line *)
RECURSIVE EndsOpen(_)
EndsOpen(b) ==  \* ends in a paragraph which a following line would continue
    CASE b.k \in {"p", "p2", "ab", "hb"} -> TRUE
      [] b.ch # <<>> -> IF Last(b.ch) = <<>> THEN TRUE ELSE EndsOpen(Last(Last(b.ch)))
      [] OTHER -> FALSE
RECURSIVE FirstLeaf(_), Depth0(_)
FirstLeaf(b) == IF IsList(b) THEN (IF b.ch[1] = <<>> THEN "none" ELSE FirstLeaf(b.ch[1][1])) ELSE b.k
Depth0(b) == IF IsList(b) THEN 1 + (IF b.ch[1] = <<>> THEN 0 ELSE Depth0(b.ch[1][1])) ELSE 0
RECURSIVE LastLeaf(_)
LastLeaf(b) == IF IsList(b) THEN (IF Last(b.ch) = <<>> THEN "none" ELSE LastLeaf(Last(Last(b.ch)))) ELSE b.k
OneLine(l) == LastLeaf(l) \in {"p", "h1", "h3", "hr", "none"}   \* else the parser takes another line for the last of the list
Close(a, b) ==
    CASE b.k \in {"p", "p2", "ab", "hb", "tab", "tabh", "dl", "icode"} -> ~EndsOpen(a) /\ a.k \notin {"tab", "tabh", "html", "icode", "dl"} /\ b.k \notin {"dl", "tab", "tabh"} /\ ~IsList(a) /\ ~IsQuote(a)
      [] IsList(b) -> (a.k \in {"p", "p2", "ab", "hb", "h1", "h3", "hr", "code", "ecode", "bcode"} \/ (IsList(a) /\ OneLine(a))) /\ ~(EndsOpen(a) /\ b.x = "z) ") /\ b.ch[1] # <<>> /\ b.ch[1][1].k \notin {"icode"} /\ FirstLeaf(b) # "hr"
      [] IsQuote(b) -> a.k \in {"p", "p2", "ab", "hb", "h1", "h3", "hr", "code", "ecode", "bcode"}
      [] b.k \in {"code", "ecode", "bcode", "h1", "h3", "hr", "com", "pre"} -> a.k \notin {"html", "tab", "tabh", "dl"} /\ ~IsList(a) /\ ~IsQuote(a)
      [] OTHER -> FALSE

(* the tightness of a list the way its source is spelled *)
RECURSIVE CloseFrom(_, _)
CloseFrom(bs, i) == IF i >= Len(bs) THEN TRUE ELSE Close(bs[i], bs[i + 1]) /\ CloseFrom(bs, i + 1)
Spelling(l) == IF l.t = "t" /\ \E i \in 1..Len(l.ch) : ~CloseFrom(l.ch[i], 1) THEN "l" ELSE l.t
(* whether a blank line precedes child i of an item *)
BlankBefore(bs, i, sp) ==
    CASE sp = "t" -> FALSE
      [] sp = "l" -> TRUE
      [] sp = "h" -> ~(IsList(bs[i]) /\ Close(bs[i - 1], bs[i]))
(* the parser does not see the blank line after some blocks *)
RECURSIVE Counts(_)
Counts(b) ==
    CASE b.k \in {"hr", "dl"} -> FALSE
      [] IsList(b) -> LET it == Last(b.ch) IN IF it = <<>> THEN TRUE ELSE Counts(Last(it))
      [] OTHER -> TRUE
IsLoose(l) ==
    LET sp == Spelling(l)
    IN  /\ sp # "t"
        /\ \/ \E i \in 1..(Len(l.ch) - 1) : IF l.ch[i] = <<>> THEN TRUE ELSE Counts(Last(l.ch[i]))
           \/ \E i \in 1..Len(l.ch) : \E j \in 2..Len(l.ch[i]) : BlankBefore(l.ch[i], j, sp) /\ Counts(l.ch[i][j - 1])

(* ----------------------------------------------------------------- source *)
Indent(ls, s) == [i \in 1..Len(ls) |-> IF ls[i] = "" THEN "" ELSE s \o ls[i]]
IndentRest(ls, s) == [i \in 1..Len(ls) |-> IF i = 1 \/ ls[i] = "" THEN ls[i] ELSE s \o ls[i]]
First(ls, s) == IF ls = <<>> THEN <<s>> ELSE <<s \o Head(ls)>> \o Tail(ls)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

LeafSrc(b) ==
    CASE b.k = "p" -> <<b.x>>
      [] b.k = "p2" -> <<b.x, b.x \o "b">>
      [] b.k = "ab" -> <<"*[" \o b.x \o "]: an \"x\"...", "*[y]: z">>
      [] b.k = "h3" -> <<"### " \o b.x \o " ##">>
      [] b.k = "h2" -> <<"## " \o b.x>>
      [] b.k = "hr" -> <<"___">>
      [] b.k = "code" -> <<"```rs", b.x, "", "  " \o b.x, "```">>
      [] b.k = "ecode" -> <<"```rs", "```">>
      [] b.k = "bcode" -> <<"```", "", "", "```">>
      [] b.k = "icode" -> <<"    " \o b.x, "", "      " \o b.x>>
      [] b.k = "pre" -> <<"<pre>", b.x, "", " " \o b.x, "</pre>">>
      [] b.k = "tabh" -> <<"|" \o b.x \o "|b|", "|-|-|">>
      [] b.k = "h1" -> <<"# " \o b.x>>
      [] b.k = "html" -> <<"<div>", b.x, "</div>">>
      [] b.k = "com" -> <<"<!-- " \o b.x \o " -->">>
      [] b.k = "tab" -> <<"|" \o b.x \o "|b|", "|-|:-:|", "|c|d|">>
      [] b.k = "hb" -> <<b.x \o "\\", b.x>>

RECURSIVE Src(_), SrcSeq(_, _, _), SrcItems(_, _)
SrcSeq(bs, i, sp) ==
    IF i > Len(bs) THEN <<>>
    ELSE (IF i > 1 /\ BlankBefore(bs, i, sp) THEN <<"">> ELSE <<>>) \o Src(bs[i]) \o SrcSeq(bs, i + 1, sp)
(* bullets: marker, spaces after it; numbers: number, delimiter, spaces *)
MarkSrc(l, i) ==
    CASE l.k = "ul" -> l.x
      [] l.k = "task" -> l.x
      [] l.k = "ol" -> IF l.x = "z) " THEN ToString(i + 7) \o ") " ELSE IF l.x = "1.   " THEN "1.   " ELSE ToString(i) \o l.x
SrcItems(l, i) ==
    IF i > Len(l.ch) THEN <<>>
    ELSE LET m == MarkSrc(l, i)
             sp == Spelling(l)
             box == IF l.k = "task" THEN (IF i % 2 = 1 THEN "[X] " ELSE "[ ] ") ELSE ""
             ls == SrcSeq(l.ch[i], 1, sp)
             bare == IF l.ch[i] = <<>> THEN <<SubSeq(m, 1, IF l.k = "ol" THEN Len(ToString(i)) + 1 ELSE 1)>> ELSE <<>>
         IN  (IF i > 1 /\ sp # "t" THEN <<"">> ELSE <<>>)
             \o (IF bare # <<>> THEN bare ELSE First(IndentRest(ls, Rep(" ", Len(m))), m \o box))
             \o SrcItems(l, i + 1)
Src(b) ==
    CASE b.k = "bq" ->
            LET ls == SrcSeq(b.ch[1], 1, "l")
                bare == b.x = ">" /\ \A i \in 1..Len(ls) : ~StartsWith(ls[i], " ")
                Q(s) == IF s = "" THEN ">" ELSE IF bare THEN ">" \o s ELSE "> " \o s
            IN  IF Marked(b) /\ ~bare THEN Map(Q, First(ls, " ")) ELSE Map(Q, ls)
      [] b.k = "alert" ->
            LET ls == SrcSeq(b.ch[1], 1, "l")
                Q(s) == IF s = "" THEN ">" ELSE "> " \o s
            IN  <<"> [!" \o b.x \o "]">> \o (IF b.t = "l" THEN <<">">> ELSE <<>>) \o Map(Q, ls)
      [] IsList(b) -> SrcItems(b, 1)
      [] b.k = "dl" ->
            LET D(i) == LET ls == SrcSeq(b.ch[i], 1, "l")
                        IN  (IF i > 1 THEN <<"">> ELSE <<>>) \o <<"t" \o ToString(i)>> \o (IF b.t = "l" THEN <<"">> ELSE <<>>)
                            \o First(IndentRest(ls, Rep(" ", Len(b.x))), b.x)
            IN  Flat([i \in 1..Len(b.ch) |-> D(i)])
      [] OTHER -> LeafSrc(b)

(* ---------------------------------------------------------------- content *)
(* what a reader sees: the structure which must come through *)
RECURSIVE Toks(_), ToksSeq(_, _)
ToksSeq(bs, i) == IF i > Len(bs) THEN <<>> ELSE Toks(bs[i]) \o ToksSeq(bs, i + 1)
Txt(s) == <<"t " \o s>>
Toks(b) ==
    CASE b.k = "p" -> <<"p">> \o Txt(b.x)
      [] b.k = "p2" -> <<"p">> \o Txt(b.x \o " " \o b.x \o "b")
      [] b.k = "ab" -> <<"p">> \o Txt("*[" \o b.x \o "]: an \"x\"... *[y]: z")
      [] b.k = "hb" -> <<"p">> \o Txt(b.x) \o <<"br">> \o Txt(b.x)
      [] b.k = "h3" -> <<"h3">> \o Txt(b.x)
      [] b.k = "h2" -> <<"h2">> \o Txt(b.x)
      [] b.k = "h1" -> <<"h1">> \o Txt(b.x)
      [] b.k = "hr" -> <<"hr">>
      [] b.k = "code" -> <<"code rs " \o b.x \o "||  " \o b.x \o "|">>
      [] b.k = "icode" -> <<"code@ " \o b.x \o "||  " \o b.x \o "|">>
      [] b.k = "ecode" -> <<"code rs ">> [] b.k = "bcode" -> <<"code@ ||">>
      [] b.k = "pre" -> <<"html">>
      [] b.k = "tabh" -> <<"table nn", "tr", "td">> \o Txt(b.x) \o <<"td">> \o Txt("b")
      [] b.k = "html" -> <<"html">> [] b.k = "com" -> <<"html">>
      [] b.k = "tab" -> <<"table nc", "tr", "td">> \o Txt(b.x) \o <<"td">> \o Txt("b") \o <<"tr", "td">> \o Txt("c") \o <<"td">> \o Txt("d")
      [] b.k = "bq" -> <<"<bq">> \o ToksSeq(b.ch[1], 1) \o <<">bq">>
      [] b.k = "alert" -> <<"<alert">> \o ToksSeq(b.ch[1], 1) \o <<">alert">>
      [] IsList(b) ->
            LET It(i) == <<IF b.k = "task" /\ b.ch[i] # <<>> THEN (IF i % 2 = 1 THEN "<task x" ELSE "<task ") ELSE "<li">> \o ToksSeq(b.ch[i], 1) \o <<"> ">>
            IN  <<(IF b.k = "ol" THEN "<ol " ELSE "<ul ") \o (IF IsLoose(b) THEN "loose" ELSE "tight")>>
                \o Flat([i \in 1..Len(b.ch) |-> It(i)]) \o <<">list">>
      [] b.k = "dl" ->
            LET It(i) == <<"dt">> \o Txt("t" \o ToString(i)) \o <<"<dd">> \o ToksSeq(b.ch[i], 1) \o <<">dd">>
            IN  <<"<dl">> \o Flat([i \in 1..Len(b.ch) |-> It(i)]) \o <<">dl">>

(* ----------------------------------------------------------------- output *)
Digits(i) == Len(ToString(i))
NumWidth(i) == LET lo == Digits(i) + 2 hi == Digits(i) + 5 IN IF opt.oiw < lo THEN lo ELSE IF opt.oiw > hi THEN hi ELSE opt.oiw
Trail == Max(1, opt.trail)
Width(l, i, lead) == IF l.k = "ol" THEN NumWidth(i) ELSE lead + 1 + Trail
(* lists of one type which directly follow each other have markers in turns *)
SameType(a, b) == IsList(a) /\ IsList(b) /\ (a.k = "ol") = (b.k = "ol")
RECURSIVE Alt(_, _)
Alt(bs, i) == i > 1 /\ SameType(bs[i - 1], bs[i]) /\ ~Alt(bs, i - 1)
Other(c) == CASE c = "-" -> "*" [] c = "." -> ")" [] c = ")" -> "." [] OTHER -> "-"
MarkOut(l, i, depth, lead, alt) ==
    LET c == IF l.k # "ol" THEN opt.um ELSE IF depth % 2 = 1 THEN opt.odd ELSE opt.even
        d == IF alt THEN Other(c) ELSE c
    IN  IF l.k = "ol" THEN ToString(i) \o d \o Rep(" ", NumWidth(i) - Digits(i) - 1)
        ELSE Rep(" ", lead) \o d \o Rep(" ", Trail)

Fence(lang) == Rep(opt.fence, opt.fencelen) \o (IF lang = "" THEN "" ELSE (IF opt.fencesp THEN " " ELSE "") \o lang)
LeafOut(b, open) ==
    CASE b.k = "p" -> <<b.x>>
      [] b.k = "p2" -> <<b.x, b.x \o "b">>
      [] b.k = "ab" -> <<"*[" \o b.x \o "]: an \"x\"...", "*[y]: z">>
      [] b.k = "hb" -> <<b.x \o "  ", b.x>>
      [] b.k = "h3" -> <<"### " \o b.x>>
      [] b.k = "h2" -> IF open THEN <<"## " \o b.x>> ELSE <<b.x, Rep("-", Len(b.x))>>
      [] b.k = "code" -> <<Fence("rs"), b.x, "", "  " \o b.x, Fence("")>>
      [] b.k = "icode" -> <<Fence(opt.lang), b.x, "", "  " \o b.x, Fence("")>>
      [] b.k = "ecode" -> <<Fence("rs"), Fence("")>>
      [] b.k = "bcode" -> <<Fence(opt.lang), "", "", Fence("")>>
      [] b.k = "h1" -> IF open THEN <<"# " \o b.x>> ELSE <<b.x, Rep("=", Len(b.x))>>
      [] b.k = "html" -> <<"<div>", b.x, "</div>">>
      [] b.k = "pre" -> <<"<pre>", b.x, "", " " \o b.x, "</pre>">>
      [] b.k = "tabh" -> LET w == Max(3, Len(b.x)) IN <<"| " \o b.x \o Rep(" ", w - Len(b.x)) \o " | b   |", "| " \o Rep("-", w) \o " | --- |">>
      [] b.k = "com" -> <<"<!-- " \o b.x \o " -->">>
      [] b.k = "tab" -> LET w == Max(3, Len(b.x)) IN <<"| " \o b.x \o Rep(" ", w - Len(b.x)) \o " |  b  |", "| " \o Rep("-", w) \o " | :-: |", "| c" \o Rep(" ", w - 1) \o " |  d  |">>

(* where a block is: depth of the enclosing lists, whether they are in a
   description, the column of the content of the enclosing item, whether there
   is an ordered list among them, the column where the content starts (which is
   further left after a marker alone on its line) *)
At(depth, dd, col, nums, first) == [depth |-> depth, dd |-> dd, col |-> col, nums |-> nums, first |-> first, next |-> FALSE, alt |-> FALSE, cap |-> 99]
Inner == At(0, FALSE, 0, FALSE, 0)

Below(b) == IsList(b) \/ IsQuote(b) \/ b.k = "hr"   \* blocks which start below a list marker

(* a thematic break after a list stays left of the content of its last item *)
LastCol(l, dd) ==
    LET n1 == Len(l.ch)
        lead == IF dd THEN 0 ELSE opt.lead
    IN  IF Last(l.ch) # <<>> /\ Below(Last(l.ch)[1]) THEN (IF l.k = "ol" THEN Digits(n1) ELSE lead) + 2 ELSE Width(l, n1, lead)
HrOut(bs, i, dd) ==
    LET k == IF i > 1 /\ IsList(bs[i - 1]) THEN Min(opt.hrlead, LastCol(bs[i - 1], dd) - 1) ELSE opt.hrlead
    IN  <<Rep(" ", k) \o opt.hr>>

(* the column of the markers of a list: a fixed width per level, unless the
   marker would leave the enclosing item, or be read as code *)
ListCol(l, at) ==
    LET ind == at.depth * (IF l.k = "ol" THEN opt.oiw ELSE opt.iw)
        lead == IF l.k = "ol" THEN 0 ELSE opt.lead
        low == IF at.nums \/ l.k = "ol" \/ at.dd THEN at.col ELSE 0
        high == Min(at.first + 3, at.cap)
    IN  IF at.depth = 0 THEN 0
        ELSE IF at.next THEN at.col - lead
        ELSE IF low <= ind + lead /\ ind + lead <= high THEN ind
             ELSE Min(at.col, high - lead)
(* a list after another is not part of the last item of that *)
RECURSIVE Capped(_, _, _)
Capped(bs, i, at) ==
    IF i = 1 THEN at
    ELSE IF ~IsList(bs[i - 1]) THEN [at EXCEPT !.next = FALSE]
    ELSE LET was == Capped(bs, i - 1, at)
             l == bs[i - 1]
             col == IF ~was.next \/ l.k = "ol" THEN LastCol(l, FALSE)
                    ELSE IF Last(l.ch) # <<>> /\ Below(Last(l.ch)[1]) THEN 2 ELSE 1 + Trail
         IN  [at EXCEPT !.next = FALSE, !.cap = (IF was.next THEN at.col ELSE ListCol(l, was)) + col - 1]

RECURSIVE Out(_, _), OutSeq(_, _, _), OutItem(_, _, _, _), OutItems(_, _, _, _)
OutSeq(bs, i, at) ==
    IF i > Len(bs) THEN <<>>
    ELSE (IF i > 1 THEN <<"">> ELSE <<>>) \o (IF bs[i].k = "hr" THEN HrOut(bs, i, FALSE) ELSE Out(bs[i], [at EXCEPT !.alt = Alt(bs, i)])) \o OutSeq(bs, i + 1, at)

(* the children of a list item, indented by w columns; after a marker alone on its
   line the content starts next to it (column hw), and HTML, which would keep any
   further indentation, is put there *)
RECURSIVE EndsDl(_)
EndsDl(b) == b.k = "dl" \/ (IsList(b) /\ Last(b.ch) # <<>> /\ EndsDl(Last(Last(b.ch))))
RECURSIVE OutKids(_, _, _, _, _, _, _)
OutKids(bs, i, loose, sp, at, w, hw) ==
    IF i > Len(bs) THEN <<>>
    ELSE LET b == bs[i]
             open == i > 1 /\ bs[i - 1].k \in {"p", "p2", "ab", "hb"}
             blank == i > 1 /\ (EndsDl(bs[i - 1]) \/ (loose /\ (~IsList(b) \/ BlankBefore(bs, i, sp))))
             joined == IsList(b) /\ open /\ ~blank
         IN  (IF blank THEN <<"">> ELSE <<>>)
             \o Indent(IF IsList(b) THEN OutItems(b, 1, [Capped(bs, i, [at EXCEPT !.first = at.col - w + (IF Below(bs[1]) THEN hw ELSE w)]) EXCEPT !.alt = Alt(bs, i)], joined)
                       ELSE IF b.ch # <<>> THEN Out(b, Inner)
                       ELSE IF b.k = "hr" THEN (IF i = 1 THEN <<opt.hr>> ELSE HrOut(bs, i, at.next /\ i = 2))
                       ELSE LeafOut(b, open /\ ~blank),
                       Rep(" ", IF b.k \in {"html", "com", "pre", "hr"} /\ i > 1 /\ Below(bs[1]) THEN hw ELSE w))
             \o OutKids(bs, i + 1, loose, sp, at, w, hw)

(* depth: that of the list itself; shift: additional indentation of its lines *)
OutItems(l, i, at, joined) ==
    IF i > Len(l.ch) THEN <<>>
    ELSE (IF i > 1 /\ IsLoose(l) THEN <<"">> ELSE <<>>) \o OutItem(l, i, at, joined /\ i = 1) \o OutItems(l, i + 1, at, joined)

Spaces(s) == CHOOSE j \in 0..Len(s) : (\A m \in 1..j : SubSeq(s, m, m) = " ") /\ (j = Len(s) \/ SubSeq(s, j + 1, j + 1) # " ")

(* lines moved by k columns *)
Shift(ls, k) == IF k >= 0 THEN Indent(ls, Rep(" ", k)) ELSE [j \in 1..Len(ls) |-> IF ls[j] = "" THEN "" ELSE SubSeq(ls[j], 1 - k, Len(ls[j]))]

OutItem(l, i, at, joined) ==
    LET depth == at.depth + 1
        flush == at.dd /\ depth = 1 /\ l.k # "ol"          \* no leading spaces in a description
        lead == IF flush THEN 0 ELSE opt.lead
        w == Width(l, i, lead)
        mark == MarkOut(l, i, depth, lead, at.alt)
        box == IF l.k = "task" THEN (IF i % 2 = 1 THEN "[x] " ELSE "[ ] ") ELSE ""
        \* a block below the marker is moved next to it where it would continue a paragraph
        joins == l.ch[i] # <<>> /\ Below(l.ch[i][1]) /\ joined
        inner == [At(depth, at.dd, ListCol(l, at) + w, at.nums \/ l.k = "ol", 0) EXCEPT !.next = joins]
        trail == IF l.k = "ol" THEN NumWidth(i) - Digits(i) - 1 ELSE Trail
        hw == w - trail + 1
        bs == l.ch[i]
        one == IF bs = <<>> THEN <<>> ELSE OutKids(<<bs[1]>>, 1, IsLoose(l), Spelling(l), inner, w, hw)
        kids == IF bs = <<>> THEN <<>> ELSE one \o OutKids(bs, 2, IsLoose(l), Spelling(l), inner, w, IF joins THEN w ELSE hw)
        body == IF kids = <<>> THEN <<mark>>
                ELSE IF ~Below(bs[1])
                THEN <<mark \o box \o SubSeq(kids[1], w + 1, Len(kids[1]))>> \o Tail(kids)
                ELSE IF joins
                THEN <<mark \o SubSeq(kids[1], Spaces(kids[1]) + 1, Len(kids[1]))>> \o Tail(kids)
                ELSE <<mark>> \o kids
    IN  Shift(body, ListCol(l, at) - at.col)

Out(b, at) ==
    CASE IsQuote(b) ->
            LET ls == OutSeq(b.ch[1], 1, Inner)
                Q(s) == IF s = "" THEN ">" ELSE "> " \o s
                head == IF b.k = "alert" THEN <<"> [!" \o b.x \o "]">> \o (IF b.t = "l" THEN <<">">> ELSE <<>>) ELSE <<>>
            IN  head \o Map(Q, IF Marked(b) THEN First(ls, "\\") ELSE ls)
      [] IsList(b) -> OutItems(b, 1, at, FALSE)
      [] b.k = "dl" ->
            LET dd == At(0, TRUE, 0, FALSE, 0)
                K(bs, j) ==
                    LET x == bs[j]
                    IN  IF IsList(x)
                        THEN LET ls == Out(x, [dd EXCEPT !.alt = Alt(bs, j)]) IN IF j = 1 THEN <<":    " \o ls[1]>> \o Indent(Tail(ls), "     ") ELSE <<"">> \o Indent(ls, "     ")
                        ELSE LET ls == IF x.k = "hr" THEN HrOut(bs, j, TRUE) ELSE Out(x, Inner)
                             IN  IF j > 1 THEN <<"">> \o Indent(ls, IF IsList(bs[1]) THEN "     " ELSE "    ")
                                 ELSE IF x.k \in {"code", "ecode", "bcode", "icode"} THEN <<":   ">> \o Indent(ls, "    ")
                                 ELSE IF x.k = "hr" THEN <<":   " \o opt.hr>>
                                 ELSE First(IndentRest(ls, "    "), ":   ")
                D(i) == (IF i > 1 THEN <<"">> ELSE <<>>) \o <<"t" \o ToString(i)>> \o Flat([j \in 1..Len(b.ch[i]) |-> K(b.ch[i], j)])
            IN  Flat([i \in 1..Len(b.ch) |-> D(i)])
      [] OTHER -> LeafOut(b, FALSE)

(* --------------------------------------------------------------- behaviour *)
Init ==
    /\ phase = "build" /\ n = 1 /\ stack = <<>> /\ out = <<>>
    /\ opt \in (Opts)

PushLeaf ==
    /\ phase = "build" /\ n <= MaxLen
    /\ \E k \in Choices(Leaves) : stack' = Append(stack, Leaf(k))
    /\ n' = n + 1 /\ UNCHANGED <<phase, opt, out>>

(* shape: the numbers of blocks in the items *)
RECURSIVE Sum(_)
Sum(ks) == IF ks = <<>> THEN 0 ELSE Head(ks) + Sum(Tail(ks))
RECURSIVE Split(_, _)
Split(bs, ks) == IF ks = <<>> THEN <<>> ELSE <<Fix(SubSeq(bs, 1, Head(ks)), 1)>> \o Split(SubSeq(bs, Head(ks) + 1, Len(bs)), Tail(ks))
Top(k) == SubSeq(stack, Len(stack) - k + 1, Len(stack))

(* restrictions on what a container may start with or hold *)
Starts(b, ks) == b.k \in ks
ItemOk(bs, k) ==
    IF bs = <<>> THEN k # "dl"
    ELSE CASE k \in {"ul", "ol"} -> bs[1].k \notin {"icode"} /\ ~(FirstLeaf(bs[1]) = "none" /\ Depth0(bs[1]) > 1)  \* "- - -" is a thematic break
           [] k = "task" -> bs[1].k \in {"p", "p2"}
           [] k = "dl" -> (\A j \in 1..Len(bs) : bs[j].k # "ab") /\ bs[1].k \notin {"icode", "alert"}
           [] OTHER -> TRUE
Wrap ==
    /\ phase = "build" /\ n <= MaxLen /\ stack # <<>>
    /\ \E k \in Choices(Wraps) :
       \E ks \in Choices({s \in Shapes : Sum(s) <= Len(stack) /\ (k \in {"bq", "alert"} => Len(s) = 1 /\ s[1] > 0)}) :
       \E t \in Choices({"t", "l", "h"}) :
       \E x \in Choices(IF k \in DOMAIN Styles THEN Styles[k] ELSE {""}) :
         LET ch == Split(Top(Sum(ks)), ks)
         IN  IF \A i \in 1..Len(ch) : ItemOk(ch[i], k)
             THEN stack' = Append(SubSeq(stack, 1, Len(stack) - Sum(ks)), Node(k, x, t, ch))
             ELSE stack' = Append(stack, Leaf("p"))
    /\ n' = n + 1 /\ UNCHANGED <<phase, opt, out>>

(* a level 2 heading of the document is set apart by two blank lines *)
RECURSIVE OutDoc(_, _)
OutDoc(bs, i) ==
    IF i > Len(bs) THEN <<>>
    ELSE (IF i = 1 THEN <<>> ELSE IF bs[i].k = "h2" /\ bs[i - 1].k \notin {"h1", "h2", "h3"} THEN <<"", "">> ELSE <<"">>)
         \o (IF bs[i].k = "hr" THEN HrOut(bs, i, FALSE) ELSE Out(bs[i], [Inner EXCEPT !.alt = Alt(bs, i)])) \o OutDoc(bs, i + 1)

Doc == Fix(stack, 1)
Run ==
    /\ phase = "build" /\ n > MinLen
    /\ phase' = "done" /\ out' = OutDoc(Doc, 1)
    /\ UNCHANGED <<opt, n, stack>>

Next == PushLeaf \/ Wrap \/ Run
Spec == Init /\ [][Next]_vars
Done == phase = "done"

(* ------------------------------------------------------------- properties *)
(* the content of a quote carries its prefix on every line (C24) *)
QuotePrefixed == (Done /\ Len(Doc) = 1 /\ Len(Doc) > 0 /\ IsQuote(Doc[1])) => \A i \in 1..Len(out) : StartsWith(out[i], ">")
(* what is not in the quote does not (C24) *)
RECURSIVE HasQuote(_)
HasQuote(b) == IsQuote(b) \/ \E i \in 1..Len(b.ch) : \E j \in 1..Len(b.ch[i]) : HasQuote(b.ch[i][j])
NoStrayQuote == (Done /\ \A i \in 1..Len(Doc) : ~HasQuote(Doc[i])) => \A i \in 1..Len(out) : ~StartsWith(out[i], ">")
(* every line of a list but those of its own markers is indented (C20) *)
Unindented == {i \in 1..Len(out) : out[i] # "" /\ ~StartsWith(out[i], " ")}
ItemsIndented ==
    (Done /\ Len(Doc) = 1 /\ IsList(Doc[1])) =>
        /\ Cardinality(Unindented) = (IF Doc[1].k = "ol" \/ opt.lead = 0 THEN Len(Doc[1].ch) ELSE 0)
        /\ Doc[1].k = "ol" => \A i \in Unindented : LET m == Cardinality({j \in Unindented : j <= i})
                                                  IN  StartsWith(out[i], ToString(m) \o opt.odd)
(* a tight list has no blank lines but those within code and around descriptions (C20) *)
RECURSIVE Kinds(_)
Kinds(b) == {b.k} \cup UNION {UNION {Kinds(b.ch[i][j]) : j \in 1..Len(b.ch[i])} : i \in 1..Len(b.ch)}
RECURSIVE AnyLoose(_)
AnyLoose(b) == (IsList(b) /\ (IsLoose(b) \/ Spelling(b) # "t")) \/ \E i \in 1..Len(b.ch) : \E j \in 1..Len(b.ch[i]) : AnyLoose(b.ch[i][j])
TightNoBlank ==
    (Done /\ Len(Doc) = 1 /\ IsList(Doc[1]) /\ ~AnyLoose(Doc[1]) /\ Kinds(Doc[1]) \cap {"code", "bcode", "icode", "pre", "dl", "bq", "alert"} = {})
        => \A i \in 1..Len(out) : out[i] # ""
NoDoubleBlank == Done => \A i \in 1..Len(out) : (out[i] = "" => i > 1 /\ i < Len(out))

Text == Join(out, NL) \o NL
Rec == [src |-> Join(SrcSeq(Doc, 1, "l"), NL) \o NL, out |-> Text, toks |-> ToksSeq(Doc, 1), opts |-> opt.o]
Emit == Done => PrintT(ToJson(Rec))
====
