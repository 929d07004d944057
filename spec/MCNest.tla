---- MODULE MCNest ----
EXTENDS Nest
All(S) == S
O(um, lead, trail, iw, w, odd, even, fence, fl, fsp, lang, hr, hrlead) ==
    [um |-> um, lead |-> lead, trail |-> trail, iw |-> iw, oiw |-> w, odd |-> odd, even |-> even, fence |-> fence, fencelen |-> fl,
     fencesp |-> fsp, lang |-> lang, hr |-> hr, hrlead |-> hrlead,
     o |-> [unordered_marker |-> um, leading_spaces |-> lead, trailing_spaces |-> trail, indent_width |-> iw,
            ordered_list_indent_width |-> w, odd_level_marker |-> odd, even_level_marker |-> even, fence_char |-> fence,
            min_fence_length |-> fl, space_after_fence |-> fsp, default_language |-> lang, thematic_break_style |-> hr,
            thematic_break_leading_spaces |-> hrlead]]
OptDefault == {O("-", 1, 2, 4, 4, ".", ")", "~", 4, TRUE, "", "- - - - -", 3)}
OptLists == OptDefault \cup
    {O("*", 0, 1, 2, 4, ")", ".", "`", 3, FALSE, "text", "___", 0), O("+", 0, 3, 4, 3, ".", ".", "~", 5, TRUE, "txt", "***", 1),
     O("-", 2, 2, 5, 4, ")", ")", "`", 4, TRUE, "", "* * *", 2), O("*", 1, 1, 3, 1, ".", ")", "~", 3, FALSE, "", "- - -", 0),
     O("+", 1, 3, 5, 5, ")", ".", "`", 6, TRUE, "x y", "_____", 3), O("-", 0, 1, 4, 6, ".", ")", "~", 4, TRUE, "", "***", 0), O("-", 0, 3, 4, 9, ".", ")", "~", 4, TRUE, "", "- - -", 2),
     O("-", 1, 0, 3, 4, ".", ")", "~", 4, TRUE, "", "***", 0)}
StyleAll == [bq |-> {">", "> "}, alert |-> {"NOTE", "TIP", "WARNING", "IMPORTANT", "CAUTION"}, ul |-> {"- ", "*   ", "+  "}, task |-> {"- ", "*  "},
             ol |-> {". ", ")  ", "z) ", "1.   "}, dl |-> {":   ", ": "}]
StyleOne == [bq |-> {"> "}, alert |-> {"NOTE"}, ul |-> {"- "}, task |-> {"- "}, ol |-> {". "}, dl |-> {":   "}]
ShapeAll == {<<0>>, <<1>>, <<1, 1>>, <<2>>, <<2, 1>>, <<1, 2>>, <<1, 1, 1>>, <<3>>, <<1, 0, 1>>}
ShapeRows == {<<1>>, <<2>>, <<3>>, <<2, 1>>, <<1, 2>>}
ShapeFew == {<<1>>, <<2>>, <<1, 1>>}
====
