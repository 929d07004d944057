---- MODULE Big ----
(***************************************************************************)
(* Large texts: a shape repeated or nested n times, in two shapes one      *)
(* inside the other.  Formatting has to come to an end for them.  C16.     *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS Sizes, Nests, Widths, MaxLen, Choices(_)
VARIABLES phase, layers, width
vars == <<phase, layers, width>>

(* a shape: opening pieces, what is in the middle, closing pieces *)
Shape(o, m, e) == [open |-> o, mid |-> m, close |-> e]
Nested == {Shape("> ", "a", ""), Shape("- ", "a", ""), Shape("1. ", "a", ""), Shape("*a ", "b", "*"), Shape("**a ", "b", "**"), Shape("*a **a ", "b", ""), Shape("[", "a", "](x)"), Shape("[", "a", "]"), Shape("![", "a", "](x)"),
           Shape("> - ", "a", ""), Shape("- > ", "a", ""), Shape("*", "a", "*"), Shape("_a ", "b", "_"), Shape("<b>", "a", "</b>"), Shape("(", "a", ")"), Shape("\"'", "a", "'\""), Shape("~~a ", "b", "~~"), Shape("[a](", "x", ")"), Shape("> [!TIP]\n> ", "a", "")}
Repeated == {Shape(x, "", "") : x \in
    {"-- ", "word ", "word [a](http://x/y) *b* 'c'\n\n", "- word [a] *b* 'c'\n", "\\*a ", "&amp;a ", "|a|b|\n|-|-|\n|`x`|y|\n\n", "|a", "a[^1] ", "a\n: b\n\n", "## Foo `x` Bar\n\n", "\"'", "'a ", "[a]: /x\n\n[a]\n\n", "*[A]: b\n\nA\n\n",
     "```\nx\n```\n\n", "~~~ a\n", "    x\n\n", "***\n\n", "<div>\n\n", "<!-- hongdown-disable -->\n\nx\n\n<!-- hongdown-enable -->\n\n", "<!-- hongdown-disable-next-line -->\n\n* x\n\n", "[^1]: x\n\na[^1]\n\n", "a  \n", "a\\\n", "\n", " ", "\t", "\\", "`", "*", "_", "~", "#", "[", "]", "!", "|", "-", "=", ".", "{W}", "{E}",
     "{C}", "{NUL}", "{CR}", "<", "&", "a*", "a_", "[a", "](", "[^a", "x`y", "<a", "<!--", "<?", "1. ", "a\n", "a. b-c's \"d\" ", "http://e.x/ ", "<http://e.x/> "}}

Init == phase = "build" /\ layers = <<>> /\ width = 80
Add == /\ phase = "build" /\ Len(layers) < MaxLen
       /\ \E t \in Choices({"n", "r"}) :
            IF t = "n" THEN \E x \in Choices(Nested) : \E n \in Choices(Nests) : layers' = Append(layers, [shape |-> x, n |-> n])
            ELSE \E x \in Choices(Repeated) : \E n \in Choices(Sizes) : layers' = Append(layers, [shape |-> x, n |-> n])
       /\ UNCHANGED <<phase, width>>
End == /\ phase = "build" /\ Len(layers) = MaxLen /\ phase' = "done" /\ \E w \in Choices(Widths) : width' = w
       /\ UNCHANGED layers
Next == Add \/ End
Spec == Init /\ [][Next]_vars
Rec == [layers |-> layers, width |-> width]
Emit == phase = "done" => PrintT(ToJson(Rec))
====
