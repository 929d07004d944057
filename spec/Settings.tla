---- MODULE Settings ----
(***************************************************************************)
(* The settings: their domains, values outside of these, their defaults,   *)
(* and what each of them makes of a text which shows them all.             *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANT Names             \* settings the author may use

V(t, v) == [t |-> t, v |-> v, ok |-> TRUE]   \* a value as it is written, and its meaning
Bad(t) == [t |-> t, v |-> 0, ok |-> FALSE]
Late(t) == [t |-> t, v |-> "late", ok |-> TRUE]   \* wrong if it is in force
Num(i) == V(ToString(i), i)
Bool == {V("true", TRUE), V("false", FALSE)}
Str(s) == V("\"" \o s \o "\"", s)

(* --------------------------------------------- the domains of the settings *)
Widths == {Num(w) : w \in {8, 9, 20, 40, 79, 80, 81, 120, 300}}
Markers == {Str("-"), Str("*"), Str("+")}
Small == {Num(i) : i \in 0..3}
Indents == {Num(i) : i \in {1, 2, 3, 4, 5, 7, 9, 12}}
Ends == {Str("."), Str(")")}
Dashes == {V("false", ""), Str("--"), Str("---"), Str("-"), Str("~"), Str("~-")}
Nouns(S) == {V("[" \o Join(x, ", ") \o "]", x) : x \in S}
Globs == {V("[]", <<>>), V("[\"a.md\"]", <<"a">>), V("[\"b.md\"]", <<"b">>), V("[\"*.md\"]", <<"a", "b">>)}

(* strings over the characters of thematic breaks *)
Chars == {"*", "-", "_", " ", "x"}
Strings(k) == UNION {[1..m -> Chars] : m \in 0..k}
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
StyleOk(s) == /\ Count(s, "x") = 0
              /\ Cardinality({c \in {"*", "-", "_"} : Count(s, c) > 0}) = 1
              /\ \E c \in {"*", "-", "_"} : Count(s, c) >= 3
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF Head(s) = " " THEN Trim(Tail(s)) ELSE IF Last(s) = " " THEN Trim(Front(s)) ELSE s
Style(s) == IF StyleOk(s) THEN V("\"" \o Join(s, "") \o "\"", Join(Trim(s), "")) ELSE Bad("\"" \o Join(s, "") \o "\"")
Seq0(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Styles == {Style(Seq0(s)) : s \in {"***", "---", "___", "- - -", "*  *  *", " ___ ", "_____", "* * * *", "   -  -  -", "**********************"}}
    \cup {Style(s) : s \in {<<"*", "{T}", "*", "{T}", "*">>, <<"-", "{T}", "-", " ", "-", "-">>, <<"_", "_", "{T}", "{T}", "_">>}}
BadStyles == {Style(Seq0(s)) : s \in {"", "   ", "--", "* *", "xxx", "***x", "*-_", "***-", "--- _", "**__", "-*-*-*", "***___", "= = ="}}
    \cup {Style(s) : s \in {<<"*", "{T}", "*">>, <<"*", "{T}", "-", "*", "*">>}}
StyleSet == IF "styles" \in Names THEN {Style(s) : s \in Strings(4)} ELSE Styles \cup BadStyles

Tr(c) == V("[\"tr\", \"c\", \"" \o c \o "\"]", c)
TrFull(c, t) == V("{ command = [\"tr\", \"c\", \"" \o c \o "\"]" \o (IF t = 0 THEN "" ELSE ", timeout = " \o ToString(t)) \o " }", c)
Formatters == {Tr("d"), Tr("e"), TrFull("d", 0), TrFull("f", 9)}

Texts(S) == {Bad(t) : t \in S}
AllSettings ==
    {"line_width", "heading.setext_h1", "heading.setext_h2", "heading.sentence_case", "heading.proper_nouns", "heading.common_nouns",
     "unordered_list.unordered_marker", "unordered_list.leading_spaces", "unordered_list.trailing_spaces", "unordered_list.indent_width",
     "ordered_list.odd_level_marker", "ordered_list.even_level_marker", "ordered_list.pad", "ordered_list.indent_width",
     "code_block.fence_char", "code_block.min_fence_length", "code_block.space_after_fence", "code_block.default_language",
     "code_block.formatters.fa", "code_block.formatters.fb", "thematic_break.style", "thematic_break.leading_spaces",
     "punctuation.curly_double_quotes", "punctuation.curly_single_quotes", "punctuation.curly_apostrophes", "punctuation.ellipsis",
     "punctuation.en_dash", "punctuation.em_dash", "include", "exclude", "git_aware"}
Flags == {"heading.setext_h1", "heading.setext_h2", "heading.sentence_case", "code_block.space_after_fence", "punctuation.curly_double_quotes",
          "punctuation.curly_single_quotes", "punctuation.curly_apostrophes", "punctuation.ellipsis", "git_aware"}
Good(s) ==
    CASE s \in Flags -> Bool
      [] s = "line_width" -> Widths
      [] s = "heading.proper_nouns" -> Nouns({<<>>, <<"\"Bar\"">>, <<"\"Swift\"">>, <<"\"Bar\"", "\"Swift\"">>})
      [] s = "heading.common_nouns" -> Nouns({<<>>, <<"\"Python\"">>, <<"\"Java\"">>, <<"\"Java\"", "\"Python\"">>})
      [] s = "unordered_list.unordered_marker" -> Markers
      [] s \in {"unordered_list.leading_spaces", "unordered_list.trailing_spaces", "thematic_break.leading_spaces"} -> Small
      [] s \in {"unordered_list.indent_width", "ordered_list.indent_width"} -> Indents
      [] s \in {"ordered_list.odd_level_marker", "ordered_list.even_level_marker"} -> Ends
      [] s = "ordered_list.pad" -> {Str("start"), Str("end")}
      [] s = "code_block.fence_char" -> {Str("~"), Str("`")}
      [] s = "code_block.min_fence_length" -> {Num(i) : i \in {3, 4, 5, 9}}
      [] s = "code_block.default_language" -> {Str(""), Str("txt"), Str("x y")}
      [] s \in {"code_block.formatters.fa", "code_block.formatters.fb"} -> Formatters
      [] s = "thematic_break.style" -> {x \in StyleSet : x.ok}
      [] s \in {"punctuation.en_dash", "punctuation.em_dash"} -> Dashes
      [] s \in {"include", "exclude"} -> Globs
BadOf(s) ==
    CASE s \in Flags -> Texts({"1", "\"true\"", "[]", "{}"})
      [] s = "line_width" -> Texts({"7", "0", "1", "-1", "-80", "\"80\"", "8.5", "true", "[80]"})
      [] s \in {"heading.proper_nouns", "heading.common_nouns", "include", "exclude"} -> Texts({"\"Foo\"", "[1]", "true", "[\"a\", 1]"})
      [] s = "unordered_list.unordered_marker" -> Texts({"\"x\"", "\"\"", "\"**\"", "\"- \"", "1", "\"_\"", "\"Hyphen\""})
      [] s \in {"unordered_list.leading_spaces", "unordered_list.trailing_spaces", "thematic_break.leading_spaces"} -> Texts({"4", "5", "-1", "100", "\"1\"", "1.5"})
      [] s \in {"unordered_list.indent_width", "ordered_list.indent_width"} -> Texts({"0", "-1", "\"4\"", "true"})
      [] s \in {"ordered_list.odd_level_marker", "ordered_list.even_level_marker"} -> Texts({"\":\"", "\"\"", "\".)\"", "1", "\"-\""})
      [] s = "ordered_list.pad" -> Texts({"\"left\"", "true", "\"\"", "\"Start\""})
      [] s = "code_block.fence_char" -> Texts({"\"'\"", "\"~~\"", "\"\"", "1", "\"-\""})
      [] s = "code_block.min_fence_length" -> Texts({"2", "0", "-3", "\"3\"", "3.5"})
      [] s = "code_block.default_language" -> Texts({"1", "true", "[\"x\"]"})
      [] s \in {"code_block.formatters.fa", "code_block.formatters.fb"} -> {Late("[]"), Late("{ command = [] }")} \cup Texts({"{ timeout = 3 }", "\"tr\"", "[1]", "{ command = \"tr\" }", "{ command = [\"tr\", \"c\", \"d\"], timeout = -1 }"})
      [] s = "thematic_break.style" -> {x \in StyleSet : ~x.ok} \cup Texts({"3", "true"})
      [] s \in {"punctuation.en_dash", "punctuation.em_dash"} -> Texts({"true", "\"\"", "\"- -\"", "\" \"", "\"{A}\"", "\"{em}\"", "1", "[\"-\"]", "\"-\\t\""})

Nothing == V("", "-")
Default(s) ==
    CASE s \in {"heading.sentence_case", "punctuation.curly_apostrophes"} -> V("", FALSE)
      [] s \in Flags \ {"heading.sentence_case", "punctuation.curly_apostrophes"} -> V("", TRUE)
      [] s = "line_width" -> V("", 80)
      [] s \in {"heading.proper_nouns", "heading.common_nouns", "include", "exclude"} -> V("", <<>>)
      [] s = "unordered_list.unordered_marker" -> V("", "-")
      [] s = "unordered_list.leading_spaces" -> V("", 1)
      [] s = "unordered_list.trailing_spaces" -> V("", 2)
      [] s \in {"unordered_list.indent_width", "ordered_list.indent_width", "code_block.min_fence_length"} -> V("", 4)
      [] s = "ordered_list.odd_level_marker" -> V("", ".")
      [] s = "ordered_list.even_level_marker" -> V("", ")")
      [] s = "ordered_list.pad" -> V("", "start")
      [] s = "code_block.fence_char" -> V("", "~")
      [] s = "code_block.default_language" -> V("", "")
      [] s \in {"code_block.formatters.fa", "code_block.formatters.fb"} -> Nothing
      [] s = "thematic_break.style" -> V("", "- - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -")
      [] s = "thematic_break.leading_spaces" -> V("", 3)
      [] s = "punctuation.en_dash" -> V("", "")
      [] s = "punctuation.em_dash" -> V("", "--")

(* ------------------------------------------------- what the settings show *)
As == 120
ProbeSrc ==
    "# Foo Bar\n\n## Foo Bar\n\n### The Bar Java Python Swift\n\n\"q\"\n\n'word'\n\nit's\n\na...\n\nb--c\n\nd---e\n\nf - g\n\nh~-i\n\nk ~ l\n\n"
    \o Join([i \in 1..As |-> "a"], " ") \o "\n\n***\n\nz\n\n* x\n  * y\n\n1. x\n   1. y\n\n```\nc\n```\n\n``` fa\nc\n```\n\n``` fb\nc\n```\n"

RECURSIVE Replace(_, _, _)
Replace(s, pat, by) ==
    IF Len(s) < Len(pat) THEN s
    ELSE IF SubSeq(s, 1, Len(pat)) = pat THEN by \o Replace(SubSeq(s, Len(pat) + 1, Len(s)), pat, by)
    ELSE SubSeq(s, 1, 1) \o Replace(SubSeq(s, 2, Len(s)), pat, by)
Dashed(s, E) ==
    LET em == E["punctuation.em_dash"].v  en == E["punctuation.en_dash"].v
        \* a single character is a dash between spaces only
        All1(x, p, by) == IF p = "" THEN x ELSE IF Len(p) = 1 THEN Replace(x, " " \o p \o " ", " " \o by \o " ") ELSE Replace(x, p, by)
    IN  All1(All1(s, em, "{em}"), en, "{en}")
Cased(w, lower, E) ==
    IF ~E["heading.sentence_case"].v THEN w
    ELSE LET q == "\"" \o w \o "\""
             proper == q \in Range(E["heading.proper_nouns"].v) \/ (w \in {"Java", "Python"} /\ q \notin Range(E["heading.common_nouns"].v))
         IN  IF proper THEN w ELSE lower
Head12(E) == "Foo " \o Cased("Bar", "bar", E)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
RECURSIVE Fill(_, _)
Fill(k, per) == IF k <= per THEN Join([i \in 1..k |-> "a"], " ") ELSE Join([i \in 1..per |-> "a"], " ") \o "\n" \o Fill(k - per, per)
Code(lang, body, E) ==
    LET f == Rep(E["code_block.fence_char"].v, E["code_block.min_fence_length"].v)
    IN  f \o (IF lang = "" THEN "" ELSE (IF E["code_block.space_after_fence"].v THEN " " ELSE "") \o lang) \o "\n" \o body \o "\n" \o f
Shown(E) ==
    LET h == Head12(E)
        um == E["unordered_list.unordered_marker"].v  lead == E["unordered_list.leading_spaces"].v
        trail == Max(1, E["unordered_list.trailing_spaces"].v)
        mark == Rep(" ", lead) \o um \o Rep(" ", trail)
        w1 == lead + 1 + trail
        iw == E["unordered_list.indent_width"].v
        col == IF iw + lead <= w1 + 3 THEN iw ELSE Min(w1, w1 + 3 - lead)
        oiw == E["ordered_list.indent_width"].v
        ow == Clamp(oiw, 3, 6)
        ocol == IF ow <= oiw /\ oiw <= ow + 3 THEN oiw ELSE ow
        num(m) == "1" \o m \o Rep(" ", ow - 2)
        form(s) == IF E[s] = Nothing THEN "c" ELSE E[s].v
    IN  Join(<<IF E["heading.setext_h1"].v THEN h \o "\n" \o Rep("=", Len(h)) ELSE "# " \o h,
               IF E["heading.setext_h2"].v THEN h \o "\n" \o Rep("-", Len(h)) ELSE "## " \o h,
               "### The " \o Cased("Bar", "bar", E) \o " " \o Cased("Java", "java", E) \o " " \o Cased("Python", "python", E) \o " " \o Cased("Swift", "swift", E),
               IF E["punctuation.curly_double_quotes"].v THEN "{ldq}q{rdq}" ELSE "\"q\"",
               IF E["punctuation.curly_single_quotes"].v THEN "{lsq}word{rsq}" ELSE "'word'",
               IF E["punctuation.curly_apostrophes"].v THEN "it{rsq}s" ELSE "it's",
               IF E["punctuation.ellipsis"].v THEN "a{ell}" ELSE "a...",
               Dashed("b--c", E), Dashed("d---e", E), Dashed("f - g", E), Dashed("h~-i", E), Dashed("k ~ l", E),
               Fill(As, E["line_width"].v \div 2),
               Rep(" ", E["thematic_break.leading_spaces"].v) \o E["thematic_break.style"].v,
               "z",
               mark \o "x\n" \o Rep(" ", col) \o mark \o "y",
               num(E["ordered_list.odd_level_marker"].v) \o "x\n" \o Rep(" ", ocol) \o num(E["ordered_list.even_level_marker"].v) \o "y",
               Code(E["code_block.default_language"].v, "c", E),
               Code("fa", form("code_block.formatters.fa"), E), Code("fb", form("code_block.formatters.fb"), E)>>, "\n\n") \o "\n"
====
