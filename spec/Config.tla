---- MODULE Config ----
(***************************************************************************)
(* The configuration of the command line program: files of settings in     *)
(* layers (system, home, user, nearest project file, or one explicit       *)
(* file), a width on the command line, the domain of each value, and what  *)
(* each setting makes of a text which shows all of them.                   *)
(* The author fills the files setting by setting; the program then loads   *)
(* one layer after the other.                                              *)
(***************************************************************************)
EXTENDS Settings

CONSTANTS MinLen, MaxLen,  \* number of settings given
          Sources,         \* files the author may write
          Wrong,           \* may values be wrong?
          Args,            \* values of --line-width, 0 for none
          Overrides,       \* is one setting given twice?
          Choices(_)

VARIABLES phase, there, files, arg, n, todo, acc, error

vars == <<phase, there, files, arg, n, todo, acc, error>>

(* ------------------------------------------------------------ the program *)
Projects == <<"cwd", "mid", "out">>        \* from the directory upwards
Nearest(T) == LET J == {j \in 1..3 : Projects[j] \in T} IN IF J = {} THEN <<>> ELSE <<Projects[CHOOSE j \in J : \A k \in J : j <= k]>>
Present(T, s) == SelectSeq(s, LAMBDA x : x \in T)
Consulted(T) == IF "cfg" \in T THEN <<"cfg">> ELSE Present(T, <<"sys", "home", "xdg">>) \o Nearest(T)
IsProject(x) == x \in Range(Projects)
Gives(x) == DOMAIN files[x].set
FileOk(x) == files[x].form # "broken" /\ \A s \in Gives(x) : files[x].set[s].ok
Defaults == [s \in AllSettings |-> Default(s)]
(* the base directory of the patterns, as the levels of directories below it *)
Base(T) == IF "cfg" \in T THEN <<"conf">>
           ELSE CASE Nearest(T) = <<"out">> -> <<"", "m", "m/c">>
                  [] Nearest(T) = <<"mid">> -> <<"m", "m/c">>
                  [] OTHER -> <<"m/c">>
Selected(T, E) ==
    LET inc == Range(E["include"].v)
        exc == Range(E["exclude"].v)
        gone == IF E["git_aware"].v /\ "cfg" \notin T THEN {"b"} ELSE {}
    IN  {d \o "/" \o f \o ".md" : d \in Range(Base(T)), f \in (inc \ exc) \ gone}

Init ==
    /\ phase = "build" /\ n = 0 /\ todo = <<>> /\ acc = Defaults /\ error = "" /\ files = [x \in {} |-> 0]
    /\ there \in (SUBSET Sources) /\ arg \in (Args)
Open ==
    /\ phase = "build" /\ n = 0 /\ ~Overrides /\ files = [x \in {} |-> 0] /\ there # {}
    /\ \E no \in Choices(SUBSET (there \ {"cfg"})), broken \in Choices(IF Wrong THEN {{}} \cup {{x} : x \in there} ELSE {{}}) :
        LET rare == IF n % 2 = 0 /\ Wrong /\ Cardinality(there) < 3 THEN broken ELSE {} IN
        files' = [x \in there |-> [no |-> x \in no, form |-> IF x \in rare THEN "broken" ELSE "toml", set |-> [s \in {} |-> 0]]]
    /\ UNCHANGED <<phase, there, arg, n, todo, acc, error>>
Give ==
    /\ phase = "build" /\ n < MaxLen /\ DOMAIN files # {} /\ ~Overrides
    /\ \E x \in Choices(there), s \in Choices(Names \cap AllSettings) :
       \E bad \in Choices(IF Wrong THEN {FALSE, TRUE} ELSE {FALSE}) :
       \E v \in Choices(IF bad THEN BadOf(s) ELSE Good(s)) :
        files' = [files EXCEPT ![x].set = [k \in (DOMAIN @) \cup {s} |-> IF k = s THEN v ELSE @[k]]]
    /\ n' = n + 1
    /\ UNCHANGED <<phase, there, arg, todo, acc, error>>
(* a layer sets back what a layer below it has set *)
Resets(s) == {v \in Good(s) : v.t \in {"[]", "\"\"", "0", "1", "true", "false"} \/ v.v = Default(s).v}
Override ==
    /\ phase = "build" /\ n = 0 /\ Overrides /\ DOMAIN files = {} /\ Cardinality(there) = 2
    /\ LET two == Present(there, <<"sys", "home", "xdg", "out", "mid", "cwd">>)
           more(s) == IF s \in {"exclude", "git_aware"} THEN {"include"} ELSE {}
       IN  \E s \in Choices(Names \cap AllSettings) : \E w \in Choices(Resets(s)) : \E v \in Choices(Good(s) \ {w}) :
            files' = [x \in there |->
                [no |-> FALSE, form |-> "toml",
                 set |-> IF x = two[2] THEN [k \in {s} |-> w]
                         ELSE [k \in {s} \cup more(s) |-> IF k = s THEN v ELSE V("[\"*.md\"]", <<"a", "b">>)]]]
    /\ n' = 2
    /\ UNCHANGED <<phase, there, arg, todo, acc, error>>
(* whether a file which is cut off has to be valid is left open *)
CutOff == \E x \in there : IsProject(x) /\ <<x>> = Nearest(there) /\ "cfg" \notin there /\ files[x].no
                           /\ \E y \in {"sys", "home", "xdg"} \cap there : ~FileOk(y)
Start ==
    /\ phase = "build" /\ n >= MinLen /\ (there = {} \/ DOMAIN files # {})
    /\ (there # {} => ~CutOff)
    /\ phase' = "load" /\ todo' = Consulted(there)
    /\ UNCHANGED <<there, files, arg, n, acc, error>>
Load ==
    /\ phase = "load" /\ todo # <<>> /\ error = ""
    /\ LET x == Head(todo)
       IN  IF ~FileOk(x) THEN error' = x /\ acc' = acc
           ELSE /\ error' = ""
                /\ LET base == IF IsProject(x) /\ files[x].no THEN Defaults ELSE acc
                   IN  acc' = [s \in AllSettings |-> IF s \in Gives(x) THEN files[x].set[s] ELSE base[s]]
    /\ todo' = Tail(todo)
    /\ UNCHANGED <<phase, there, files, arg, n>>
Conflict(E) == E["punctuation.em_dash"].v # "" /\ E["punctuation.em_dash"].v = E["punctuation.en_dash"].v
Unusable(E) == \E s \in {"code_block.formatters.fa", "code_block.formatters.fb"} : E[s].v = "late"
BadArg == arg # 0 /\ arg < 8
Run ==
    /\ phase = "load" /\ (todo = <<>> \/ error # "")
    /\ phase' = "done"
    /\ acc' = IF arg # 0 THEN [acc EXCEPT !["line_width"] = V("", arg)] ELSE acc
    /\ error' = IF BadArg THEN "arg" ELSE IF error # "" THEN error ELSE IF Conflict(acc) \/ Unusable(acc) THEN "conflict" ELSE ""
    /\ UNCHANGED <<there, files, arg, n, todo>>
Next == Open \/ Give \/ Override \/ Start \/ Load \/ Run
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- properties *)
Done == phase = "done"
(* the sources of a setting, from the highest precedence down *)
Down == IF "cfg" \in there THEN <<"cfg">>
        ELSE LET p == Nearest(there) IN IF p # <<>> /\ files[p[1]].no THEN p ELSE p \o Present(there, <<"xdg", "home", "sys">>)
Highest(s) == SelectSeq(Down, LAMBDA x : s \in Gives(x))
RightLayer ==
    (Done /\ error = "") =>
        \A s \in AllSettings : acc[s] = IF s = "line_width" /\ arg # 0 THEN V("", arg)
                                        ELSE IF Highest(s) = <<>> THEN Default(s) ELSE files[Highest(s)[1]].set[s]
(* an accepted configuration has only valid values *)
OnlyValid == (Done /\ error = "") => (\A s \in AllSettings : acc[s].ok) /\ ~Conflict(acc) /\ ~Unusable(acc) /\ ~BadArg
(* a configuration is rejected for a reason *)
OnlyInvalid == (Done /\ error # "") => BadArg \/ Conflict(acc) \/ Unusable(acc) \/ \E x \in there : ~FileOk(x)
ExplicitAlone == (Done /\ error = "" /\ "cfg" \in there) => \A s \in AllSettings : s \notin Gives("cfg") => acc[s] = (IF s = "line_width" /\ arg # 0 THEN V("", arg) ELSE Default(s))

FileRec(x) == [at |-> x, no |-> files[x].no, form |-> files[x].form, set |-> {<<s, files[x].set[s].t>> : s \in Gives(x)}]
Rec == [files |-> {FileRec(x) : x \in there}, arg |-> arg, error |-> error,
        src |-> ProbeSrc, out |-> IF error = "" THEN Shown(acc) ELSE "",
        some |-> acc["include"].v # <<>>, picked |-> IF error = "" THEN Selected(there, acc) ELSE {}]
Emit == Done => PrintT(ToJson(Rec))
====
