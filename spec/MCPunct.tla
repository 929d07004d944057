---- MODULE MCPunct ----
EXTENDS Punct
All(S) == S
O(dq, sq, ap, ell, em, en) ==
    [dq |-> dq, sq |-> sq, ap |-> ap, ell |-> ell, em |-> em, en |-> en,
     o |-> [line_width |-> 1000, curly_double_quotes |-> dq, curly_single_quotes |-> sq, curly_apostrophes |-> ap, ellipsis |-> ell,
            em_dash |-> IF em = "" THEN "off" ELSE em, en_dash |-> IF en = "" THEN "off" ELSE en]]
OptDefault == {O(TRUE, TRUE, FALSE, TRUE, "--", "")}
OptOff == {O(FALSE, FALSE, FALSE, FALSE, "", "")}
OptOnes == {O(TRUE, FALSE, FALSE, FALSE, "", ""), O(FALSE, TRUE, FALSE, FALSE, "", ""), O(FALSE, FALSE, TRUE, FALSE, "", ""), O(FALSE, FALSE, FALSE, TRUE, "", ""),
            O(FALSE, FALSE, FALSE, FALSE, "--", ""), O(FALSE, FALSE, FALSE, FALSE, "", "--"), O(FALSE, FALSE, FALSE, FALSE, "-", ""), O(FALSE, FALSE, FALSE, FALSE, "", "-")}
OptMore == {O(TRUE, TRUE, TRUE, TRUE, "---", "--"), O(TRUE, TRUE, TRUE, TRUE, "--", "-"), O(FALSE, TRUE, TRUE, FALSE, "-", ""), O(TRUE, FALSE, TRUE, TRUE, "~", "--"),
            O(TRUE, TRUE, TRUE, FALSE, "--", ""), O(FALSE, TRUE, FALSE, TRUE, "--", "~")}
OptAll == OptDefault \cup OptOff \cup OptOnes \cup OptMore
====
