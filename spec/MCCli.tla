---- MODULE MCCli ----
EXTENDS Cli
All(S) == S
AllPaths == {<<"-x.md">>, <<"NOTES.MARKDOWN">>, <<"Z.md">>, <<"a.md">>, <<"b.markdown">>, <<"c.txt">>, <<"md">>, <<"sub.md">>, <<"sp ace.md">>, <<"l.md">>, <<"lsub">>,
             <<"sub", "a.md">>, <<"sub", "t.mdx">>, <<"sub", "k.mD">>, <<"sub", "deep", "h.md">>, <<"d.md", "q.md">>, <<".hid", "h.md">>, <<"sub", "deep", "md">>}
FewPaths == {<<"a.md">>, <<"sub", "a.md">>, <<"c.txt">>}
LinkPaths == {<<"a.md">>, <<"l.md">>, <<"lsub">>, <<"sub", "a.md">>}
AllTargets == {<<>>, <<"sub">>, <<"lsub">>, <<"l.md">>, <<"gone.md">>, <<"d.md">>, <<"empty">>, <<"sub", "deep">>}
FewTargets == {<<>>, <<"gone.md">>}
====
