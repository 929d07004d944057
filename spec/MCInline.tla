---- MODULE MCInline ----
EXTENDS Inline
All(S) == S
O(on, off, w) ==
    [ty |-> on, o |-> [line_width |-> w, curly_double_quotes |-> on, curly_single_quotes |-> on, curly_apostrophes |-> on, ellipsis |-> on,
                       em_dash |-> IF on THEN "--" ELSE "off", en_dash |-> IF on THEN "-" ELSE "off"]]
OptAll == {O(TRUE, FALSE, w) : w \in {8, 20, 80, 1000}} \cup {O(FALSE, TRUE, w) : w \in {8, 20, 80}}
OptWide == {O(TRUE, FALSE, 1000)}
OptTwo == {O(TRUE, FALSE, 80), O(FALSE, TRUE, 8)}
====
