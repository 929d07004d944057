---- MODULE MCCollect ----
EXTENDS Collect
All(S) == S
AllFiles == {<<"a.md">>, <<"l.md">>, <<"b.md">>, <<"A.MD">>, <<"ab.md">>, <<".a.md">>, <<"docs.md">>, <<"n.markdown">>, <<"t.txt">>, <<"docs", "a.md">>, <<"docs", "b.md">>, <<"docs", "t.txt">>,
             <<"docs", "x", "a.md">>, <<"docs", "x", "c.md">>, <<"docs", "docs", "a.md">>, <<"src", "a.md">>, <<"src", "b.md">>, <<"src", "docs", "a.md">>, <<"out", "a.md">>,
             <<".hid", "a.md">>, <<".git", "a.md">>, <<"x", "a.md">>, <<"docs", "src", "x", "b.md">>}
FewFiles == {<<"a.md">>, <<"docs", "a.md">>}
BaseSet == {<<>>, <<"docs">>}
TopBase == {<<>>}
AllPats == DOMAIN Table \ {"nota", "notdocsa", "notdocs"}
AllLines == DOMAIN Table
FewPats == {"a", "docsdir", "md"}
====
