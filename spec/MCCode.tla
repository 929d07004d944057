---- MODULE MCCode ----
EXTENDS Code
All(S) == S
O(f, min, space, lang, tick) ==
    [fence |-> f, min |-> min, space |-> space, lang |-> lang, langtick |-> tick,
     o |-> [fence_char |-> f, min_fence_length |-> min, space_after_fence |-> space, default_language |-> lang]]
OptOne == {O("~", 4, TRUE, "", FALSE)}
OptTwo == {O("~", 3, FALSE, "", FALSE), O("`", 3, TRUE, "text", FALSE)}
OptAll == {O(f, m, s, l, FALSE) : f \in {"~", "`"}, m \in {3, 4, 6}, s \in {TRUE, FALSE}, l \in {"", "text"}} \cup {O("`", 3, TRUE, "a`b", TRUE)}
====
