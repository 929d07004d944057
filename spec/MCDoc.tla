---- MODULE MCDoc ----
(* Constants of Doc which a configuration file cannot express. *)
EXTENDS Doc
All(S) == S
O(s1, s2, lead, style, rec) == [setext_h1 |-> s1, setext_h2 |-> s2, hr_lead |-> lead, hr_style |-> style, o |-> rec]
DefHr == Rep("- ", 36) \o "-"
OptDefault == {O(TRUE, TRUE, 3, DefHr, [line_width |-> 80])}
OptLayout ==
    OptDefault \cup
    {O(FALSE, TRUE, 0, "***", [setext_h1 |-> FALSE, thematic_break_style |-> "***", thematic_break_leading_spaces |-> 0]),
     O(TRUE, FALSE, 2, "_ _ _", [setext_h2 |-> FALSE, thematic_break_style |-> "_ _ _", thematic_break_leading_spaces |-> 2]),
     O(FALSE, FALSE, 1, "-----", [setext_h1 |-> FALSE, setext_h2 |-> FALSE, thematic_break_style |-> "-----", thematic_break_leading_spaces |-> 1])}
====
