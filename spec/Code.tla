---- MODULE Code ----
(***************************************************************************)
(* Code blocks (code.rs).  An author writes code line by line -- among the  *)
(* lines those which look like fences, markup or directives -- as a fenced  *)
(* or indented block in some container; the system scans the content for    *)
(* runs of its fence character and fences it safely.  C03.                  *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS MinLen, MaxLen, LineSet, Infos, Contexts, Spells, Opts, Posts, Choices(_)

VARIABLES phase, ctx, spell, info, opt, post, code, si, run, out

vars == <<phase, ctx, spell, info, opt, post, code, si, run, out>>

(* ------------------------------------------------------------------- content *)
(* x: the line; bt, td: length of the run of backticks or tildes it starts with,
   however far it is indented *)
L(x, bt, td) == [x |-> x, bt |-> bt, td |-> td]
Blank == L("", 0, 0)
Lines ==
    (IF "basic" \in LineSet THEN {L("x = 1;", 0, 0), Blank, L("```", 3, 0), L("~~~~", 0, 4)} ELSE {})
    \cup (IF "fences" \in LineSet THEN {L("````", 4, 0), L("  `````", 5, 0), L("``` rs", 3, 0), L("``", 2, 0), L("`", 1, 0), L("~~~", 0, 3), L("   ~~~~~~", 0, 6),
            L("      ```````", 7, 0), L("~", 0, 1), L("a ``````` b", 0, 0), L("`~`~`", 1, 0), L("~~~ `", 0, 3)} ELSE {})
    \cup (IF "markup" \in LineSet THEN {L("# no heading", 0, 0), L("- no item", 0, 0), L("> no quote", 0, 0), L("1) one", 0, 0), L("***", 0, 0), L("[a]: /b", 0, 0), L("[^1]: n", 0, 0),
            L("\"q\" -- 'r'...", 0, 0), L("<!-- hongdown-disable -->", 0, 0), L("| a | b |", 0, 0), L("|--|", 0, 0), L("\\*x\\* &amp;", 0, 0), L("a  b  ", 0, 0), L("---", 0, 0), L("trailing\\", 0, 0)} ELSE {})
    \cup (IF "indent" \in LineSet THEN {L("  two", 0, 0), L("     five", 0, 0), L("{W} {E}", 0, 0), L("a very long line which is much longer than the line width of eighty columns allows it to be", 0, 0)} ELSE {})
    \cup (IF "space" \in LineSet THEN {L("   ", 0, 0), L("{T}t", 0, 0), L(" {T} u", 0, 0)} ELSE {})
White == L("   ", 0, 0)
Spacy == {L("{T}t", 0, 0), L(" {T} u", 0, 0)}   \* tabs within containers are columns, not text

(* s: as written after the fence, o: as written back; tick: contains a backtick *)
I(s, o, tick) == [s |-> s, o |-> o, tick |-> tick]
InfoOf(i) ==
    CASE i = "none" -> I("", "", FALSE) [] i = "rs" -> I("rs", "rs", FALSE) [] i = "meta" -> I("  rs  {.x #y}  title=\"z\" ", "rs  {.x #y}  title=\"z\"", FALSE)
      [] i = "nofmt" -> I("js hongdown-no-format", "js hongdown-no-format", FALSE) [] i = "tick" -> I("a`b", "a`b", TRUE)
      [] i = "esc" -> I("c\\+\\+", "c++", FALSE) [] i = "wide" -> I("{W}", "{W}", FALSE)

(* ---------------------------------------------------------------- containers *)
(* pre lines, prefix of the first and other lines, prefix of blank lines *)
Ctx(spre, s1, sn, sb, pre, o1, on, ob) == [spre |-> spre, s1 |-> s1, sn |-> sn, sb |-> sb, pre |-> pre, o1 |-> o1, on |-> on, ob |-> ob]
CtxOf(c) ==
    CASE c = "top" -> Ctx(<<>>, "", "", "", <<>>, "", "", "")
      [] c = "below" -> Ctx(<<"zz">>, "", "", "", <<"zz", "">>, "", "", "")
      [] c = "quote" -> Ctx(<<>>, "> ", "> ", ">", <<>>, "> ", "> ", ">")
      [] c = "quote2" -> Ctx(<<>>, "> > ", ">> ", ">>", <<>>, "> > ", "> > ", "> >")
      [] c = "alert" -> Ctx(<<"> [!WARNING]">>, "> ", "> ", ">", <<"> [!WARNING]">>, "> ", "> ", ">")
      [] c = "item" -> Ctx(<<>>, "* ", "  ", "", <<>>, " -  ", "    ", "")
      [] c = "tight" -> Ctx(<<"* zz">>, "  ", "  ", "", <<" -  zz">>, "    ", "    ", "")
      [] c = "item2" -> Ctx(<<"+  zz", "">>, "   ", "   ", "", <<" -  zz", "">>, "    ", "    ", "")
      [] c = "num" -> Ctx(<<>>, "7) ", "   ", "", <<>>, "1.  ", "    ", "")
      [] c = "nested" -> Ctx(<<"* zz">>, "  1. ", "     ", "", <<" -  zz">>, "    1)  ", "        ", "")
      [] c = "qitem" -> Ctx(<<>>, "> * ", ">   ", ">", <<>>, ">  -  ", ">     ", ">")
      [] c = "itemq" -> Ctx(<<"* zz", "">>, "  > ", "  > ", "  >", <<" -  zz", "">>, "    > ", "    > ", "    >")
      [] c = "qitemq" -> Ctx(<<"> * zz", ">">>, ">   > ", ">   > ", ">   >", <<">  -  zz", ">">>, ">     > ", ">     > ", ">     >")
      [] c = "dd" -> Ctx(<<"zz">>, ":   ", "    ", "", <<"zz", ":   ">>, "    ", "    ", "")
      [] c = "dd2" -> Ctx(<<"zz", ":   yy", "">>, "    ", "    ", "", <<"zz", ":   yy", "">>, "    ", "    ", "")
      [] c = "qdd" -> Ctx(<<"> zz", "> : yy", ">">>, ">   ", ">   ", ">", <<"> zz", "> :   yy", ">">>, ">     ", ">     ", ">")
      [] c = "note" -> Ctx(<<"zz[^n]", "", "[^n]: yy", "">>, "    ", "    ", "", <<"zz[^n]", "", "[^n]: yy", "">>, "      ", "      ", "")
C == CtxOf(ctx)
Inf == InfoOf(info)

(* ---------------------------------------------------------------- spellings *)
(* bt3, td3: shortest possible fence; bt9, td9: longer; off: fence and content
   indented by two columns; open: not closed; ind: indented code *)
Tilde == spell \in {"td", "td9"}
LongestRun(ls, tilde) == LET R == {0} \cup {IF tilde THEN ls[i].td ELSE ls[i].bt : i \in 1..Len(ls)} IN CHOOSE r \in R : \A q \in R : q <= r
SrcFence ==
    LET k == IF spell \in {"td9", "bt9"} THEN 9 ELSE Max(3, LongestRun(code, Tilde) + 1)
    IN  Rep(IF Tilde THEN "~" ELSE "`", k)
SrcLines ==
    LET X(l) == l.x
        body == Map(X, code)
        Off(ls) == [i \in 1..Len(ls) |-> IF ls[i] = "" THEN "" ELSE "  " \o ls[i]]
        In(ls) == [i \in 1..Len(ls) |-> IF ls[i] = "" THEN "" ELSE "    " \o ls[i]]
    IN  CASE spell = "ind" -> In(body)
          [] spell = "open" -> <<SrcFence \o Inf.s>> \o body
          [] spell = "off" -> Off(<<SrcFence \o Inf.s>> \o body \o <<SrcFence \o "``  ">>)
          [] OTHER -> <<SrcFence \o Inf.s>> \o body \o <<SrcFence>>
Src ==
    LET ls == SrcLines
    IN  C.spre \o [i \in 1..Len(ls) |-> IF ls[i] = "" THEN C.sb ELSE (IF i = 1 THEN C.s1 ELSE C.sn) \o ls[i]]
        \o (IF post = "para" THEN <<"", "end">> ELSE <<>>)

(* ---------------------------------------------------------------- behaviour *)
Init ==
    /\ phase = "build" /\ code = <<>> /\ si = 0 /\ run = 0 /\ out = <<>>
    /\ ctx \in (Contexts) /\ opt \in (Opts)
    /\ spell \in (IF ctx \in {"top", "quote", "item2", "quote2", "dd2", "itemq", "qitemq", "note", "alert", "qdd"} THEN Spells ELSE Spells \ {"ind"})
    /\ info \in (IF spell = "ind" THEN {"none"} ELSE IF Tilde THEN Infos ELSE Infos \ {"tick"})
    /\ post \in (IF ctx = "note" \/ spell = "open" THEN {"none"} ELSE Posts)

WriteLine ==
    /\ phase = "build" /\ Len(code) < MaxLen
    /\ \E l \in Choices({l \in Lines : (ctx # "top" => l \notin Spacy) /\ (spell \in {"ind", "off"} => l \notin Spacy)
                                        /\ ((spell = "ind" /\ code = <<>>) => l \notin {Blank, White})}) : code' = Append(code, l)
    /\ UNCHANGED <<phase, ctx, spell, info, opt, post, si, run, out>>

Char == IF Inf.tick \/ opt.langtick THEN "~" ELSE opt.fence
Start ==
    /\ phase = "build" /\ Len(code) >= MinLen
    /\ spell = "ind" => (code # <<>> /\ Last(code) \notin {Blank, White})
    /\ (spell = "open" /\ code # <<>>) => (Last(code) # Blank /\ Last(code).x # "   ")
    /\ phase' = "scan" /\ si' = 1 /\ UNCHANGED <<ctx, spell, info, opt, post, code, run, out>>

(* the longest run of the fence character at the start of a line *)
Scan ==
    /\ phase = "scan" /\ si <= Len(code)
    /\ run' = Max(run, IF Char = "~" THEN code[si].td ELSE code[si].bt)
    /\ si' = si + 1 /\ UNCHANGED <<phase, ctx, spell, info, opt, post, code, out>>

FenceLen == Max(opt.min, run + 1)
Fence == Rep(Char, FenceLen)
OutInfo == IF Inf.o = "" THEN opt.lang ELSE Inf.o
Write ==
    /\ phase = "scan" /\ si > Len(code)
    /\ LET X(l) == l.x IN
         out' = <<Fence \o (IF OutInfo = "" THEN "" ELSE (IF opt.space THEN " " ELSE "") \o OutInfo)>> \o Map(X, code) \o <<Fence>>
    /\ phase' = "done" /\ UNCHANGED <<ctx, spell, info, opt, post, code, si, run>>

Next == WriteLine \/ Start \/ Scan \/ Write
Spec == Init /\ [][Next]_vars
Done == phase = "done"

(* --------------------------------------------------------------- properties *)
(* nothing within the block closes it *)
Safe == Done => \A i \in 1..Len(code) : (IF Char = "~" THEN code[i].td ELSE code[i].bt) < FenceLen
LongEnough == Done => FenceLen >= opt.min
NoLonger == Done => (FenceLen = opt.min \/ \E i \in 1..Len(code) : (IF Char = "~" THEN code[i].td ELSE code[i].bt) = FenceLen - 1)
Verbatim == Done => (Len(out) = Len(code) + 2 /\ \A i \in 1..Len(code) : out[i + 1] = code[i].x)
InfoKept == (Done /\ Inf.o # "") => out[1] = Fence \o (IF opt.space THEN " " ELSE "") \o Inf.o

Text ==
    Join(C.pre \o [i \in 1..Len(out) |-> IF out[i] = "" THEN C.ob ELSE (IF i = 1 THEN C.o1 ELSE C.on) \o out[i]]
         \o (IF post = "para" THEN <<"", "end">> ELSE <<>>), NL) \o NL
Rec == [src |-> Join(Src, NL) \o NL, out |-> Text, opts |-> opt.o]
Emit == Done => PrintT(ToJson(Rec))
====
