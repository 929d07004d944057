---- MODULE MCHeading ----
EXTENDS Heading
All(S) == S
OH(on, curly, proper, common) == [on |-> on, curly |-> curly, proper |-> proper, common |-> common]
OptPlain == {OH(TRUE, TRUE, <<>>, <<>>)}
OptTwo == {OH(TRUE, TRUE, <<"MyLib", "My Cool Lib", "my-cool-lib">>, <<>>)}
OptNouns == {
    OH(TRUE, TRUE, <<>>, <<>>), OH(TRUE, FALSE, <<>>, <<>>), OH(FALSE, TRUE, <<"MyLib">>, <<>>),
    OH(TRUE, TRUE, <<"MyLib", "My Cool Lib", "my-cool-lib">>, <<>>), OH(TRUE, TRUE, <<"My Cool Lib", "Lib Two Guide", "cool/LIB">>, <<"GitHub">>),
    OH(TRUE, FALSE, <<"github ACTIONS", "gitHUB">>, <<"javascript">>), OH(TRUE, TRUE, <<"The Guide", "GuiDE">>, <<"GITHUB Actions", "united states of america">>),
    OH(TRUE, TRUE, <<"MyLib">>, <<"MyLib", "America">>)}
OptOverlap == {OH(TRUE, TRUE, <<"cool LIB", "Lib GUIde", "my COOL">>, <<>>), OH(TRUE, TRUE, <<"my COOL", "cool LIB", "Cool lib-TWO">>, <<>>)}
====
