---- MODULE WasmOpts ----
(***************************************************************************)
(* The options of the WebAssembly API: an object with any of the options,  *)
(* each within its domain or outside of it, and the settings it stands for *)
(* - those of the native options of the same names.                        *)
(***************************************************************************)
EXTENDS Settings

CONSTANTS MinLen, MaxLen, Wrong, Choices(_)

VARIABLES phase, given, todo, acc

vars == <<phase, given, todo, acc>>

(* the options and the settings they stand for *)
JsNames ==
    [lineWidth |-> "line_width", setextH1 |-> "heading.setext_h1", setextH2 |-> "heading.setext_h2",
     headingSentenceCase |-> "heading.sentence_case", headingProperNouns |-> "heading.proper_nouns", headingCommonNouns |-> "heading.common_nouns",
     unorderedMarker |-> "unordered_list.unordered_marker", leadingSpaces |-> "unordered_list.leading_spaces",
     trailingSpaces |-> "unordered_list.trailing_spaces", indentWidth |-> "unordered_list.indent_width",
     oddLevelMarker |-> "ordered_list.odd_level_marker", evenLevelMarker |-> "ordered_list.even_level_marker",
     orderedListPad |-> "ordered_list.pad", orderedListIndentWidth |-> "ordered_list.indent_width",
     fenceChar |-> "code_block.fence_char", minFenceLength |-> "code_block.min_fence_length",
     spaceAfterFence |-> "code_block.space_after_fence", defaultLanguage |-> "code_block.default_language",
     thematicBreakStyle |-> "thematic_break.style", thematicBreakLeadingSpaces |-> "thematic_break.leading_spaces",
     curlyDoubleQuotes |-> "punctuation.curly_double_quotes", curlySingleQuotes |-> "punctuation.curly_single_quotes",
     curlyApostrophes |-> "punctuation.curly_apostrophes", ellipsis |-> "punctuation.ellipsis",
     enDash |-> "punctuation.en_dash", emDash |-> "punctuation.em_dash"]
(* the names of the native options *)
Native ==
    [lineWidth |-> "line_width", setextH1 |-> "setext_h1", setextH2 |-> "setext_h2",
     headingSentenceCase |-> "heading_sentence_case", headingProperNouns |-> "heading_proper_nouns", headingCommonNouns |-> "heading_common_nouns",
     unorderedMarker |-> "unordered_marker", leadingSpaces |-> "leading_spaces", trailingSpaces |-> "trailing_spaces", indentWidth |-> "indent_width",
     oddLevelMarker |-> "odd_level_marker", evenLevelMarker |-> "even_level_marker",
     orderedListPad |-> "ordered_list_pad", orderedListIndentWidth |-> "ordered_list_indent_width",
     fenceChar |-> "fence_char", minFenceLength |-> "min_fence_length", spaceAfterFence |-> "space_after_fence", defaultLanguage |-> "default_language",
     thematicBreakStyle |-> "thematic_break_style", thematicBreakLeadingSpaces |-> "thematic_break_leading_spaces",
     curlyDoubleQuotes |-> "curly_double_quotes", curlySingleQuotes |-> "curly_single_quotes", curlyApostrophes |-> "curly_apostrophes",
     ellipsis |-> "ellipsis", enDash |-> "en_dash", emDash |-> "em_dash"]
Options == DOMAIN JsNames

(* values of the right type outside of the domain *)
Out(o) ==
    LET s == JsNames[o]
        X(S) == {Bad(t) : t \in S}
    IN  CASE o = "lineWidth" -> X({"7", "0", "1"})
          [] o = "unorderedMarker" -> X({"\"x\"", "\"\"", "\"**\"", "\"- \"", "\"_\"", "\"Hyphen\"", "\"1\""})
          [] o \in {"leadingSpaces", "trailingSpaces", "thematicBreakLeadingSpaces"} -> X({"4", "5", "100"})
          [] o \in {"indentWidth", "orderedListIndentWidth"} -> X({"0"})
          [] o \in {"oddLevelMarker", "evenLevelMarker"} -> X({"\":\"", "\"\"", "\".)\"", "\"-\"", "\"*\""})
          [] o = "orderedListPad" -> X({"\"left\"", "\"\"", "\"End\"", "\"END\""})
          [] o = "fenceChar" -> X({"\"'\"", "\"~~\"", "\"\"", "\"``\"", "\"-\""})
          [] o = "minFenceLength" -> X({"2", "1", "0"})
          [] o = "thematicBreakStyle" -> {x \in StyleSet : ~x.ok}
          [] OTHER -> {}
(* what is no pattern disables the dash *)
NoDash == {[t |-> t, v |-> "", ok |-> TRUE] : t \in {"\"\"", "\" \"", "\"- -\"", "\"-\\t\"", "\"{A}\"", "\"{em}\""}}
In(o) == Good(JsNames[o]) \cup (IF o \in {"enDash", "emDash"} THEN NoDash ELSE {})
Null == [t |-> "null", v |-> 0, ok |-> FALSE]

Init == phase = "build" /\ given = <<>> /\ todo = <<>> /\ acc = [o \in Options |-> Default(JsNames[o])]
Used == {given[k].o : k \in 1..Len(given)}
Give ==
    /\ phase = "build" /\ Len(given) < MaxLen
    /\ \E o \in Choices({x \in Options \ Used : JsNames[x] \in Names}), bad \in Choices(Wrong) :
        \E v \in Choices(IF bad THEN Out(o) \cup {Null} ELSE In(o)) : given' = Append(given, [o |-> o, v |-> v])
    /\ UNCHANGED <<phase, todo, acc>>
Start == phase = "build" /\ Len(given) >= MinLen /\ phase' = "map" /\ todo' = given /\ UNCHANGED <<given, acc>>
(* one option after the other *)
Take ==
    /\ phase = "map" /\ todo # <<>>
    /\ acc' = (IF Head(todo).v.ok THEN [acc EXCEPT ![Head(todo).o] = Head(todo).v] ELSE acc)
    /\ todo' = Tail(todo) /\ UNCHANGED <<phase, given>>
End == phase = "map" /\ todo = <<>> /\ phase' = "done" /\ UNCHANGED <<given, todo, acc>>
Next == Give \/ Start \/ Take \/ End
Spec == Init /\ [][Next]_vars

Done == phase = "done"
(* settings of the native names *)
Settle == [s \in AllSettings |-> IF \E o \in Options : JsNames[o] = s THEN acc[CHOOSE o \in Options : JsNames[o] = s] ELSE Default(s)]

Absent == Done => \A o \in Options \ Used : acc[o] = Default(JsNames[o])
Outside == Done => \A k \in 1..Len(given) : acc[given[k].o] = (IF given[k].v.ok THEN given[k].v ELSE Default(JsNames[given[k].o]))
OneEach == \A o, q \in Options : JsNames[o] = JsNames[q] => o = q
(* en and em dashes of the same pattern are left open *)
Clash == acc["enDash"].v # "" /\ acc["enDash"].v = acc["emDash"].v

Rec == [js |-> "{" \o Join([k \in 1..Len(given) |-> "\"" \o given[k].o \o "\": " \o given[k].v.t], ", ") \o "}",
        want |-> {<<Native[o], ToJson(acc[o].v)>> : o \in Options}, src |-> ProbeSrc, out |-> IF Clash THEN "" ELSE Shown(Settle)]
Emit == Done => PrintT(ToJson(Rec))
====
