---- MODULE ExtFmt ----
(***************************************************************************)
(* Documents with code blocks, and formatters for two languages: which     *)
(* blocks reach a formatter, and what becomes of them.                     *)
(***************************************************************************)
EXTENDS Actor, Json

CONSTANTS MinLen, MaxLen, Ops, Endings, ScriptLen, Contexts, Opts, Langs, Lines, Secs, Starts, Choices(_)

VARIABLES phase, opt, sa, sb, secs, doc, i, parts, warns, runs

vars == <<phase, opt, sa, sb, secs, doc, i, parts, warns, runs>>

(* code lines: the line, and the length of its run of tildes *)
L(x, td) == [x |-> x, td |-> td]
LineSet == {L("c", 0), L("", 0), L("  {W}", 0), L("~~~", 3), L("```", 0), L("# h", 0), L("\"q\" -- x...", 0)}
(* more than a pipe holds *)
BigLine == Rep("oooooooooo", 100)
Big == [k \in 1..100 |-> L(BigLine, 0)]
(* what a block starts with *)
StartOf(x) == IF x = "big" THEN Big ELSE <<>>
(* info strings: as written, the language, and whether formatting is off *)
I(s, lang, off) == [s |-> s, lang |-> lang, off |-> off]
InfoOf(x) ==
    CASE x = "none" -> I("", "", FALSE) [] x = "fa" -> I("fa", "fa", FALSE) [] x = "fb" -> I("fb", "fb", FALSE) [] x = "FA" -> I("FA", "FA", FALSE)
      [] x = "fab" -> I("fab", "fab", FALSE) [] x = "meta" -> I("fa title=\"t\" {1,3}", "fa", FALSE) [] x = "off" -> I("fa hongdown-no-format", "fa", TRUE)
      [] x = "offmeta" -> I("fb {1} hongdown-no-format x", "fb", TRUE) [] x = "notoff" -> I("fa hongdown-no-formats", "fa", FALSE) [] x = "only" -> I("hongdown-no-format", "hongdown-no-format", TRUE)
      [] x = "comma" -> I("fa,fb", "fa,fb", FALSE) [] x = "other" -> I("rs fa", "rs", FALSE)
(* containers: lines before, source prefixes (first, other, blank), output lines before, output prefixes *)
Ctx(spre, s1, sn, sb_, pre, o1, on, ob) == [spre |-> spre, s1 |-> s1, sn |-> sn, sb |-> sb_, pre |-> pre, o1 |-> o1, on |-> on, ob |-> ob]
CtxOf(c) ==
    CASE c = "top" -> Ctx(<<>>, "", "", "", <<>>, "", "", "")
      [] c = "quote" -> Ctx(<<>>, "> ", "> ", ">", <<>>, "> ", "> ", ">")
      [] c = "quote2" -> Ctx(<<>>, "> > ", ">> ", ">>", <<>>, "> > ", "> > ", "> >")
      [] c = "alert" -> Ctx(<<"> [!NOTE]">>, "> ", "> ", ">", <<"> [!NOTE]">>, "> ", "> ", ">")
      [] c = "item" -> Ctx(<<>>, "* ", "  ", "", <<>>, " -  ", "    ", "")
      [] c = "item2" -> Ctx(<<"+  zz", "">>, "   ", "   ", "", <<" -  zz", "">>, "    ", "    ", "")
      [] c = "num" -> Ctx(<<>>, "7) ", "   ", "", <<>>, "1.  ", "    ", "")
      [] c = "itemq" -> Ctx(<<"* zz", "">>, "  > ", "  > ", "  >", <<" -  zz", "">>, "    > ", "    > ", "    >")
      [] c = "qitem" -> Ctx(<<>>, "> * ", ">   ", ">", <<>>, ">  -  ", ">     ", ">")
      [] c = "dd" -> Ctx(<<"zz">>, ":   ", "    ", "", <<"zz", ":   ">>, "    ", "    ", "")
      [] c = "dd2" -> Ctx(<<"zz", ":   yy", "">>, "    ", "    ", "", <<"zz", ":   yy", "">>, "    ", "    ", "")
      [] c = "kept" -> Ctx(<<"<!-- hongdown-disable-next-line -->", "">>, "", "", "", <<"<!-- hongdown-disable-next-line -->", "">>, "", "", "")
      [] c = "note" -> Ctx(<<"zz[^n]", "", "[^n]: yy", "">>, "    ", "    ", "", <<"zz[^n]", "", "[^n]: yy", "">>, "      ", "      ", "")

Init ==
    /\ phase = "build" /\ doc = <<>> /\ i = 1 /\ parts = <<>> /\ warns = <<>> /\ runs = [l \in {"fa", "fb"} |-> 0] /\ sa = <<>> /\ sb = <<>>
    /\ opt \in (Opts) /\ secs \in (Secs)
Script ==
    /\ phase = "build" /\ sa = <<>> /\ doc = <<>>
    /\ \E k \in Choices(0..ScriptLen), m \in Choices(0..ScriptLen), a \in Choices([1..ScriptLen -> Ops]), b \in Choices([1..ScriptLen -> Ops]), x \in Choices(Endings), y \in Choices(Endings) :
        /\ sa' = (IF x = "missing" THEN <<x>> ELSE SubSeq(a, 1, k) \o <<x>>)
        /\ sb' = (IF y = "missing" THEN <<y>> ELSE SubSeq(b, 1, m) \o <<y>>)
    /\ UNCHANGED <<phase, opt, secs, doc, i, parts, warns, runs>>
AddBlock ==
    /\ phase = "build" /\ sa # <<>> /\ Len(doc) < MaxLen
    /\ \E c \in Choices({x \in Contexts : x = "note" => ~\E j \in 1..Len(doc) : doc[j].c = "note"}), l \in Choices(Langs), x \in Choices(Starts) : doc' = Append(doc, [c |-> c, l |-> l, code |-> StartOf(x)])
    /\ UNCHANGED <<phase, opt, sa, sb, secs, i, parts, warns, runs>>
AddLine ==
    /\ phase = "build" /\ doc # <<>> /\ Len(Last(doc).code) < Lines + (IF Len(Last(doc).code) >= 100 THEN 100 ELSE 0)
    /\ \E x \in Choices(LineSet) : doc' = [doc EXCEPT ![Len(doc)].code = Append(@, x)]
    /\ UNCHANGED <<phase, opt, sa, sb, secs, i, parts, warns, runs>>
Start == phase = "build" /\ Len(doc) >= MinLen /\ phase' = "work" /\ UNCHANGED <<opt, sa, sb, secs, doc, i, parts, warns, runs>>

(* ------------------------------------------------------------ the formatters *)
Xs(ls) == [k \in 1..Len(ls) |-> ls[k].x]
(* what a script prints for some code: lines, and whether the last has its newline *)
Fresh(ls, open, new) == IF open /\ new # <<>> /\ ls # <<>> THEN Front(ls) \o <<L(Last(ls).x \o new[1].x, IF Last(ls).x = "" THEN new[1].td ELSE Last(ls).td)>> \o Tail(new) ELSE ls \o new
RECURSIVE Prints(_, _, _)
(* st: [ls, open (the last line has no newline yet), ate (the input is used up), n (lines printed so far)] *)
Prints(sc, code, st) ==
    IF sc = <<>> \/ Head(sc) = "u" THEN st
    ELSE LET op == Head(sc)
             add(new, open) == Prints(Tail(sc), code, [st EXCEPT !.ls = Fresh(st.ls, st.open, new), !.open = IF new = <<>> THEN st.open ELSE open])
         IN  CASE op \in {"R", "r", "i"} -> Prints(Tail(sc), code, [st EXCEPT !.ate = TRUE])
               [] op \in {"C", "c"} -> Prints(Tail(sc), code, [st EXCEPT !.ls = IF st.ate THEN @ ELSE Fresh(st.ls, st.open, code), !.open = IF st.ate \/ code = <<>> THEN @ ELSE FALSE, !.ate = TRUE])
               [] op = "o" -> Prints(Tail(sc), code, [st EXCEPT !.ls = Fresh(st.ls, st.open, <<L("o" \o ToString(st.n + 1), 0)>>), !.open = FALSE, !.n = @ + 1])
               [] op = "O" -> add(Big, FALSE)
               [] op = "f" -> add(<<L("~~~~~~", 6)>>, FALSE)
               [] op = "g" -> add(<<L("  ````` x", 0)>>, FALSE)
               [] op = "q" -> add(<<L("y", 0)>>, FALSE)
               [] op = "n" -> add(<<L("", 0)>>, FALSE)
               [] op = "m" -> add(<<L("  *m*  \"q\"", 0)>>, FALSE)
               [] op = "w" -> add(<<L("w", 0)>>, TRUE)
               [] OTHER -> Prints(Tail(sc), code, st)
Printed(sc, code) == Prints(Executed(sc), code, [ls |-> <<>>, open |-> FALSE, ate |-> FALSE, n |-> 0]).ls

(* --------------------------------------------------------------- the system *)
Lang(b) == IF InfoOf(b.l).lang = "" THEN opt.lang ELSE InfoOf(b.l).lang
Reaches(b) == b.c # "kept" /\ ~InfoOf(b.l).off /\ Lang(b) \in {"fa", "fb"}
ScriptOf(l) == IF l = "fa" THEN sa ELSE sb
Runs(l) == IF ScriptOf(l) = <<"missing">> THEN 0 ELSE 1
Result(b) == Outcome(ScriptOf(Lang(b)), secs)
LongestTd(ls) == LET R == {0} \cup {ls[k].td : k \in 1..Len(ls)} IN CHOOSE r \in R : \A q \in R : q <= r
Fenced(b, ls) ==
    LET c == CtxOf(b.c)
        fence == Rep("~", Max(4, LongestTd(ls) + 1))
        info == IF InfoOf(b.l).s = "" THEN opt.lang ELSE InfoOf(b.l).s
        all == <<fence \o (IF info = "" THEN "" ELSE " " \o info)>> \o Xs(ls) \o <<fence>>
    IN  c.pre \o [k \in 1..Len(all) |-> IF all[k] = "" THEN c.ob ELSE (IF k = 1 THEN c.o1 ELSE c.on) \o all[k]]
SrcFence(b) == "~~~~~"
SrcOf(b) ==
    LET c == CtxOf(b.c)
        all == <<SrcFence(b) \o InfoOf(b.l).s>> \o Xs(b.code) \o <<SrcFence(b)>>
    IN  c.spre \o [k \in 1..Len(all) |-> IF all[k] = "" THEN c.sb ELSE (IF k = 1 THEN c.s1 ELSE c.sn) \o all[k]]
Work ==
    /\ phase = "work" /\ i <= Len(doc)
    /\ LET b == doc[i]
           r == IF Reaches(b) THEN Result(b) ELSE "none"
       IN  /\ parts' = Append(parts, IF b.c = "kept" THEN SrcOf(b) ELSE Fenced(b, IF r = "ok" THEN Printed(ScriptOf(Lang(b)), b.code) ELSE b.code))
           /\ warns' = (IF r \in {"none", "ok"} THEN warns ELSE Append(warns, Lang(b)))
           /\ runs' = (IF r = "none" THEN runs ELSE [runs EXCEPT ![Lang(b)] = @ + Runs(Lang(b))])
    /\ i' = i + 1 /\ UNCHANGED <<phase, opt, sa, sb, secs, doc>>
End == phase = "work" /\ i > Len(doc) /\ phase' = "done" /\ UNCHANGED <<opt, sa, sb, secs, doc, i, parts, warns, runs>>
Next == Script \/ AddBlock \/ AddLine \/ Start \/ Work \/ End
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- properties *)
Done == phase = "done"
(* a block's code is replaced only by the output of a formatter which succeeded in time *)
Untouched == Done => \A k \in 1..Len(doc) : ~(Reaches(doc[k]) /\ Result(doc[k]) = "ok") => parts[k] \in {Fenced(doc[k], doc[k].code), SrcOf(doc[k])}
OneWarningEach == Done => Len(warns) = Cardinality({k \in 1..Len(doc) : Reaches(doc[k]) /\ Result(doc[k]) # "ok"})
RunsOnlyFor == Done => runs["fa"] + runs["fb"] <= Cardinality({k \in 1..Len(doc) : Reaches(doc[k])})

(* blocks stand between paragraphs; a footnote comes last wherever it is defined *)
Order(ps) == LET N == {k \in 1..Len(doc) : doc[k].c = "note"} IN ps
Sep(k) == <<"p" \o ToString(k), "">>
TextOf(ps) == Join(Flat([k \in 1..Len(ps) |-> Sep(k) \o ps[k] \o <<"">>]) \o <<"end">>, NL) \o NL
NoNote == \A k \in 1..Len(doc) : doc[k].c # "note" \/ k = Len(doc)
(* a final footnote takes no paragraph behind it *)
Final(ps) == IF doc # <<>> /\ Last(doc).c = "note" THEN Join(Flat([k \in 1..Len(ps) |-> Sep(k) \o ps[k] \o (IF k = Len(ps) THEN <<>> ELSE <<"">>)]), NL) \o NL ELSE TextOf(ps)
Rec == [src |-> Final([k \in 1..Len(doc) |-> SrcOf(doc[k])]), out |-> Final(parts), opts |-> opt.o, sa |-> sa, sb |-> sb, secs |-> secs, warns |-> warns, runs |-> runs,
        slow |-> Cardinality({k \in 1..Len(doc) : Reaches(doc[k]) /\ Result(doc[k]) = "timeout"})]
Emit == (Done /\ NoNote) => PrintT(ToJson(Rec))
====
