---- MODULE Soup ----
(***************************************************************************)
(* Texts nobody would write: pieces of markup, words and characters of     *)
(* every kind in any order; documents with pieces put in, taken out, cut   *)
(* off and repeated; under settings drawn from their whole domains.        *)
(* Formatting has to come to an end with a text for all of them.  C16.     *)
(***************************************************************************)
EXTENDS Settings

CONSTANTS MinLen, MaxLen, Kinds, File, MaxOpts, Focus, Choices(_)
Documents == ndJsonDeserialize(File)      \* each as a sequence of lines

VARIABLES phase, text, edits, opts
vars == <<phase, text, edits, opts>>

(* ------------------------------------------------------------- fragments *)
Line == {"\n", "\n\n", "\n  ", "\n    ", "\n\t", "\n> ", "\n>", "\n- ", "\n 1. ", "\n   ", "{CR}\n", "{CR}", "\n\n    ", "\n\n  ", " \n", "  \n", "\\\n"}
Blocks == {"> ", ">", "- ", "* ", "+ ", "-", "1. ", "1) ", "99. ", "999999999. ", "0. ", "#", "# ", "## ", "###### ", "####### ", "# #", "===", "---", "***", "_ _ _", "=",
           "```", "~~~~", "``` x", "~~~ a b", "    ", "\t", " ", "   ", "|", "| a | b |", "|-|-|", "|:-:|--:|", "\n|-|\n", "\\|", ": ", ":   ", "\n: ", "[^1]", "[^1]: ", "[^a b]: ", "[a]: ", "[a]: /u", "[a]: <", "[ ] ", "[x] ", "- [ ] ",
           "[!NOTE]", "> [!TIP]\n", "*[A]: b", "<div>", "</div>", "<!--", "-->", "<!-- x -->", "<?", "?>", "<![CDATA[", "]]>", "<!X", "<pre>", "<script>", "<a", "/>",
           "<!-- hongdown-disable -->", "<!-- hongdown-enable -->", "<!-- hongdown-disable-next-line -->", "<!-- hongdown-disable-next-section -->", "<!-- hongdown-disable-file -->",
           "<!-- hongdown-proper-nouns: A B, {E} -->", "<!-- hongdown-common-nouns: -->", "<!-- hongdown-proper-nouns:, ,-->", "---\na: b\n---"}
Marks == {"*", "**", "***", "_", "__", "`", "``", "` `", "~~", "[", "]", "[]", "![", "](", "]()", "](/u)", "](<", ">)", "][", "][]", "(", ")", "<", ">", "\"", "'", "''", "\"\"", "{ldq}", "{rsq}", "...", "....", ".", "--", "---", "-", "~",
          "\\", "\\\\", "\\*", "\\[", "\\`", "&", "&amp;", "&#", "&#0;", "&#x110000;", "&#38;", "&nbsp;", "&ngE;", "<http://x>", "<a@b.c>", "https://e.x/", "<b>", "<b x='", "!", "|", ":", "^", "#", "1.", "+", "="}
Words == {"a", "ab", "a b", "word ", " a", "A", "I", "iPhone", "it's", "'90s", "{W}", "{W}{W}", "{K}", "{E}", "{ZWJ}", "{C}", "{Z}", "{N}", "{NUL}", "{F}", "{LS}", "{FW}", "{A}", "{U}", "{sharp}", "{dotI}", "{fi}", "{Dz}", "{apos_n}", "{sigma}", "{BOM}", "{rtl}", "{zalgo}", "{flag}", "{tone}", "{ctl}", "{big}", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "GitHub", "TypeScript ", "Proper"}
Of(k) == CASE k = "line" -> Line [] k = "block" -> Blocks [] k = "mark" -> Marks [] k = "word" -> Words
Fragments == UNION {Of(k) : k \in Kinds}

(* --------------------------------------------------------------- settings *)
Extreme(s) ==
    CASE s = "line_width" -> {8, 9, 10, 13, 80, 1000000}
      [] s \in {"unordered_list.indent_width", "ordered_list.indent_width"} -> {1, 2, 3, 4, 8, 40}
      [] s = "code_block.min_fence_length" -> {3, 4, 200}
      [] s = "code_block.default_language" -> {"", "txt", "x y", "{W}{E}", "a`b", "&amp;", "\\"}
      [] s = "heading.proper_nouns" -> {<<>>, <<"Proper">>, <<"a b">>, <<"{dotI}x", "{sharp}">>, <<"">>, <<"{E} {W}">>, <<"A", "a b c", "{fi}n">>}
      [] s = "heading.common_nouns" -> {<<>>, <<"GitHub">>, <<"{dotI}">>, <<"", " ">>}
      [] s = "thematic_break.style" -> {"***", "---", "_ _ _", "- - - - - - -"}
      [] s \in {"punctuation.en_dash", "punctuation.em_dash"} -> {"off", "--", "---", "-", "~", "\\", "*", "a", "[", ">-", "|", "."}
      [] OTHER -> {x.v : x \in Good(s)}
Free == AllSettings \ {"code_block.formatters.fa", "code_block.formatters.fb", "include", "exclude", "git_aware"}
Fine(o) == ~("punctuation.en_dash" \in DOMAIN o /\ o["punctuation.en_dash"] = (IF "punctuation.em_dash" \in DOMAIN o THEN o["punctuation.em_dash"] ELSE "--") /\ o["punctuation.en_dash"] # "off")

(* -------------------------------------------------------------- behaviour *)
(* some parts of the program only run under some settings, for some texts: what all texts begin with, and the settings *)
Quotes == {"punctuation.curly_double_quotes", "punctuation.curly_single_quotes", "punctuation.curly_apostrophes"}
FocusText == CASE Focus = "heading" -> <<"# ">> [] Focus = "table" -> <<"| a | b |\n|---|:-:|\n| ">> [] OTHER -> <<>>
FocusOpts ==
    CASE Focus = "heading" -> {[s \in {"heading.sentence_case"} \cup Quotes |-> s = "heading.sentence_case" \/ on] : on \in BOOLEAN}
      [] Focus = "punctuation" -> {[s \in Quotes |-> on] : on \in BOOLEAN}
      [] OTHER -> {[s \in {} |-> 0]}
Init ==
    /\ phase = "opts" /\ edits = 0 /\ opts \in FocusOpts
    /\ text = (IF Documents = <<>> THEN FocusText ELSE <<"?">>)
Pick == /\ text = <<"?">> /\ phase = "opts" /\ \E d \in Choices(1..Len(Documents)) : text' = Documents[d]
        /\ UNCHANGED <<phase, edits, opts>>
Chosen == phase = "opts" /\ text # <<"?">>
Set == /\ Chosen /\ Focus = "" /\ Cardinality(DOMAIN opts) < MaxOpts
       /\ \E s \in Choices(Free \ DOMAIN opts) : \E v \in Choices(Extreme(s)) :
            LET o == [x \in DOMAIN opts \cup {s} |-> IF x = s THEN v ELSE opts[x]] IN Fine(o) /\ opts' = o
       /\ UNCHANGED <<phase, text, edits>>
Go == Chosen /\ phase' = "edit" /\ UNCHANGED <<text, edits, opts>>
Able == phase = "edit" /\ edits < MaxLen
Edit(t) == text' = t /\ edits' = edits + 1 /\ UNCHANGED <<phase, opts>>
Append1 == /\ Able /\ Documents = <<>>
           /\ \E k \in Choices(Kinds) : \E f \in Choices(Of(k)) : Edit(Append(text, f))
(* edits of documents, which are sequences of lines *)
Some == Able /\ Documents # <<>> /\ text # <<>>
Put(i, s) == [text EXCEPT ![i] = s]
Insert == /\ Some /\ \E i \in Choices(1..Len(text)) : \E k \in Choices(Kinds) : \E f \in Choices(Of(k)) : \E p \in Choices(0..Len(text[i])) :
               Edit(Put(i, SubSeq(text[i], 1, p) \o f \o SubSeq(text[i], p + 1, Len(text[i]))))
Cut == /\ Some /\ \E i \in Choices(1..Len(text)) : \E p \in Choices(0..Len(text[i])) : \E q \in Choices(p..Len(text[i])) :
               Edit(Put(i, SubSeq(text[i], 1, p) \o SubSeq(text[i], q + 1, Len(text[i]))))
Drop == Some /\ Len(text) > 1 /\ \E i \in Choices(1..Len(text)) : Edit(SubSeq(text, 1, i - 1) \o SubSeq(text, i + 1, Len(text)))
Twice == Some /\ \E i \in Choices(1..Len(text)) : \E j \in Choices(1..Len(text)) : Edit(SubSeq(text, 1, i) \o <<text[j]>> \o SubSeq(text, i + 1, Len(text)))
Shift == Some /\ \E i \in Choices(1..Len(text)) : \E f \in Choices({" ", "   ", "    ", "\t", "> ", "- ", "1. ", ": ", "[^1]: ", "|"}) : Edit(Put(i, f \o text[i]))
Merge == /\ Some /\ Len(text) > 1 /\ \E i \in Choices(1..Len(text) - 1) :
               Edit(SubSeq(text, 1, i - 1) \o <<text[i] \o text[i + 1]>> \o SubSeq(text, i + 2, Len(text)))
End == phase = "edit" /\ edits >= MinLen /\ phase' = "done" /\ UNCHANGED <<text, edits, opts>>
Next == Pick \/ Set \/ Go \/ Append1 \/ Insert \/ Cut \/ Drop \/ Twice \/ Shift \/ Merge \/ End
Spec == Init /\ [][Next]_vars

Rec == [src |-> Join(text, IF Documents = <<>> THEN "" ELSE "\n"), set |-> [s \in DOMAIN opts |-> opts[s]], n |-> Cardinality(DOMAIN opts)]
Emit == phase = "done" => PrintT(ToJson(Rec))
====
