---- MODULE Cli ----
(***************************************************************************)
(* One run of the command line program over a tree of files: the arguments *)
(* become a list of files, and these are written, checked, compared or     *)
(* printed.  Writing and checking treat the files in parallel, in any      *)
(* order; a file is first read, then formatted, then written or reported.  *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS MinFiles, MaxFiles, MaxArgs, MaxBlocks,
          Modes,        \* what the program is asked to do
          Paths,        \* the files there may be
          Targets,      \* what may be given as an argument
          Rights,       \* what files may be like
          Workers,      \* how many files are treated at a time
          Choices(_)

VARIABLES phase, mode, disk, args, todo, files, work, left, out, err, failed, result

vars == <<phase, mode, disk, args, todo, files, work, left, out, err, failed, result>>

(* ----------------------------------------------------------------- texts *)
B(s, o, w) == [s |-> s, o |-> o, w |-> w]
Hr == "   - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -"
BlockSet == [
    p |-> B(<<"w">>, <<"w">>, <<>>),
    three |-> B(<<"a", "b", "c">>, <<"a", "b", "c">>, <<>>),
    q |-> B(<<"say \"hi\"">>, <<"say {ldq}hi{rdq}">>, <<>>),
    e |-> B(<<"x...">>, <<"x{ell}">>, <<>>),
    h |-> B(<<"### H ###">>, <<"### H">>, <<>>),
    hh |-> B(<<"### H">>, <<"### H">>, <<>>),
    plus |-> B(<<"+++ b">>, <<"+++ b">>, <<>>),
    minus |-> B(<<"-- x">>, <<"{em} x">>, <<>>),
    at |-> B(<<"@@ -1 +1 @@">>, <<"@@ -1 +1 @@">>, <<>>),
    nonl |-> B(<<"\\ No newline at end of file">>, <<"\\\\ No newline at end of file">>, <<>>),
    hr |-> B(<<"***">>, <<Hr>>, <<>>),
    code |-> B(<<"```", "c", "", "", " d", "```">>, <<"~~~~", "c", "", "", " d", "~~~~">>, <<>>),
    codef |-> B(<<"~~~~", "c", "", "d", "~~~~">>, <<"~~~~", "c", "", "d", "~~~~">>, <<>>),
    cr |-> B(<<"a{CR}b", "c">>, <<"a", "b", "c">>, <<>>),
    u |-> B(<<"v", "[b][k] [y][]">>, <<"v", "[b][k] [y][]">>, <<<<1, "k">>, <<1, "y">>>>),
    wide |-> B(<<"{W}{K} {Z}">>, <<"{W}{K} {Z}">>, <<>>)]
Block(b) == BlockSet[b]
Text(bl, nl, lead, fin) == [bl |-> bl, nl |-> nl, lead |-> lead, fin |-> fin]
NoText == Text(<<>>, "\n", 0, 1)
Src(t) ==
    IF t.bl = <<>> THEN Rep(t.nl, t.lead)
    ELSE Rep(t.nl, t.lead) \o Join([i \in 1..Len(t.bl) |-> Join(Block(t.bl[i]).s, t.nl)], t.nl \o t.nl) \o Rep(t.nl, t.fin)
Formatted(t) == IF t.bl = <<>> THEN "" ELSE Join([i \in 1..Len(t.bl) |-> Join(Block(t.bl[i]).o, "\n")], "\n\n") \o "\n"
RECURSIVE Sum(_)
Sum(ls) == IF ls = <<>> THEN 0 ELSE Head(ls) + Sum(Tail(ls))
Before(t, i) == LET ls == [j \in 1..(i - 1) |-> Len(Block(t.bl[j]).s) + 1] IN t.lead + Sum(ls)
Warnings(t) == Flat([i \in 1..Len(t.bl) |-> [k \in 1..Len(Block(t.bl[i]).w) |-> <<Before(t, i) + 1 + Block(t.bl[i]).w[k][1], Block(t.bl[i]).w[k][2]>>]])

(* ----------------------------------------------------------------- paths *)
(* names in the order of their bytes *)
Names == <<"-x.md", ".hid", "NOTES.MARKDOWN", "Z.md", "a.md", "b.markdown", "c.txt", "d.md", "deep", "empty", "gone.md", "h.md", "k.mD", "l.md", "lsub", "md", "q.md", "sp ace.md", "sub", "sub.md", "t.mdx">>
Rank(n) == CHOOSE i \in 1..Len(Names) : Names[i] = n
RECURSIVE Less(_, _)
Less(p, q) == IF q = <<>> THEN FALSE ELSE IF p = <<>> THEN TRUE ELSE IF Head(p) = Head(q) THEN Less(Tail(p), Tail(q)) ELSE Rank(Head(p)) < Rank(Head(q))
Markdown == {"-x.md", "NOTES.MARKDOWN", "Z.md", "a.md", "b.markdown", "d.md", "gone.md", "h.md", "k.mD", "l.md", "q.md", "sp ace.md", "sub.md"}
LinkTo(p) == IF p = <<"l.md">> THEN <<"a.md">> ELSE IF p # <<>> /\ p[1] = "lsub" THEN <<"sub">> \o Tail(p) ELSE p
LinkSub(p) == IF p # <<>> /\ p[1] = "sub" THEN {<<"lsub">> \o Tail(p)} ELSE {}
Real(p) == LinkTo(p)
Exists == DOMAIN disk
(* a link is there if the paths of the scenario have it and it leads to something *)
HasLinkFile == <<"l.md">> \in Paths /\ <<"a.md">> \in Exists
HasLinkDir == <<"lsub">> \in Paths
Below(d) ==
    LET direct == {p \in Exists : Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d}
        viaDir == IF HasLinkDir THEN {<<"lsub">> \o Tail(p) : p \in {x \in Exists : x[1] = "sub"}} ELSE {}
        viaFile == IF HasLinkFile THEN {<<"l.md">>} ELSE {}
        all == direct \cup {p \in viaDir \cup viaFile : Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d}
    IN  {p \in all : Last(p) \in Markdown}
RECURSIVE SortPaths(_)
SortPaths(PS) == IF PS = {} THEN <<>> ELSE LET m == CHOOSE p \in PS : \A q \in PS : p = q \/ Less(p, q) IN <<m>> \o SortPaths(PS \ {m})
Dirs == {<<>>, <<"sub">>, <<"sub", "deep">>, <<"d.md">>, <<"lsub">>, <<"empty">>, <<".hid">>}
IsDir(p) == p \in Dirs \ (IF HasLinkDir THEN {} ELSE {<<"lsub">>})
Spellings == {"", "./", "sub/../"}
Shown(a) == IF a.p = <<>> THEN "." ELSE a.sp \o Join(a.p, "/")
(* the files of an argument, as they are called and as they are *)
FilesOf(a) ==
    IF IsDir(a.p)
    THEN LET ps == SortPaths(Below(a.p))
         IN  [i \in 1..Len(ps) |-> [disp |-> Shown(a) \o "/" \o Join(SubSeq(ps[i], Len(a.p) + 1, Len(ps[i])), "/"), p |-> Real(ps[i])]]
    ELSE LET p == IF a.p = <<"l.md">> /\ ~HasLinkFile THEN a.p ELSE Real(a.p)
         IN  <<[disp |-> Shown(a), p |-> IF p \in Exists THEN p ELSE <<Shown(a)>>]>>   \* a file which is not there is known by its name only
RECURSIVE AddNew(_, _)
AddNew(fs, new) ==
    IF new = <<>> THEN fs
    ELSE AddNew(IF \E i \in 1..Len(fs) : fs[i].p = new[1].p THEN fs ELSE Append(fs, new[1]), Tail(new))

(* ------------------------------------------------------------ the author *)
Init ==
    /\ phase = "build" /\ disk = [p \in {} |-> 0] /\ args = <<>> /\ todo = <<>> /\ files = <<>> /\ work = [i \in {} |-> 0] /\ left = {}
    /\ out = <<>> /\ err = <<>> /\ failed = FALSE /\ result = [code |-> 0]
    /\ mode \in (Modes)
AddFile ==
    /\ phase = "build" /\ Cardinality(Exists) < MaxFiles /\ args = <<>>
    /\ \E p \in Choices({x \in Paths : x \notin {<<"l.md">>, <<"lsub">>} /\ x \notin Exists}), r \in Choices(Rights), nl \in Choices({"\n", "{CR}\n"}),
          lead \in Choices({0, 0, 1}), fin \in Choices({0, 1, 1, 2}), b \in Choices(DOMAIN BlockSet \cup {"none"}) :
        LET r2 == IF Cardinality(Exists) % 2 = 0 /\ "rw" \in Rights THEN "rw" ELSE r
        IN  disk' = [x \in Exists \cup {p} |-> IF x = p THEN [t |-> Text(IF b = "none" THEN <<>> ELSE <<b>>, nl, IF b = "u" THEN 0 ELSE lead, fin), r |-> r2] ELSE disk[x]]
    /\ UNCHANGED <<phase, mode, args, todo, files, work, left, out, err, failed, result>>
(* a word says less of its file than a whole text: most files get several blocks *)
Grow ==
    /\ phase = "build" /\ args = <<>> /\ Exists # {}
    /\ \E p \in Choices({x \in Exists : disk[x].t.bl # <<>> /\ Len(disk[x].t.bl) < MaxBlocks}), b \in Choices(DOMAIN BlockSet) :
        /\ b = "u" => "cr" \notin Range(disk[p].t.bl)      \* how lines are counted then is left open
        /\ disk' = [disk EXCEPT ![p].t.bl = Append(@, b)]
    /\ UNCHANGED <<phase, mode, args, todo, files, work, left, out, err, failed, result>>
AddArg ==
    /\ phase = "build" /\ Cardinality(Exists) >= MinFiles /\ Len(args) < MaxArgs
    /\ \E p \in Choices(Targets \cup Exists), sp \in Choices(Spellings) :
        args' = Append(args, [p |-> p, sp |-> IF p # <<>> /\ p[1] = "-x.md" /\ sp = "" THEN "./" ELSE sp])
    /\ UNCHANGED <<phase, mode, disk, todo, files, work, left, out, err, failed, result>>
Stdin == {"stdin", "stdin-diff", "stdin-write", "stdin-check", "dash", "dash-diff"}
Start ==
    /\ phase = "build" /\ Cardinality(Exists) >= MinFiles
    /\ mode \in Stdin \/ args # <<>>
    /\ phase' = "expand" /\ todo' = args
    /\ UNCHANGED <<mode, disk, args, files, work, left, out, err, failed, result>>

(* ----------------------------------------------------------- the program *)
Expand ==
    /\ phase = "expand" /\ todo # <<>>
    /\ files' = AddNew(files, FilesOf(Head(todo))) /\ todo' = Tail(todo)
    /\ UNCHANGED <<phase, mode, disk, args, work, left, out, err, failed, result>>
Parallel == mode \in {"write", "check"}
Expanded ==
    /\ phase = "expand" /\ todo = <<>>
    /\ phase' = (IF mode \in Stdin THEN "end" ELSE "work")
    /\ left' = IF mode \in Stdin THEN {} ELSE 1..Len(files)
    /\ UNCHANGED <<mode, disk, args, todo, files, work, out, err, failed, result>>
Busy == DOMAIN work
(* an idle worker takes a file and reads it; in order if the order matters *)
Missing(i) == files[i].p \notin Exists
Take ==
    /\ phase = "work" /\ left # {} /\ Cardinality(Busy) < (IF Parallel THEN Workers ELSE 1)
    /\ \E i \in (IF Parallel THEN Choices(left) ELSE {CHOOSE x \in left : \A y \in left : x <= y}) :
        LET p == files[i].p
        IN  IF Missing(i) \/ disk[p].r \in {"no", "bin"}
            THEN /\ err' = Append(err, <<"Error reading", files[i].disp>>) /\ failed' = TRUE
                 /\ left' = (IF Parallel THEN left \ {i} ELSE {})
                 /\ UNCHANGED <<work>>
            ELSE /\ work' = [k \in Busy \cup {i} |-> IF k = i THEN disk[p].t ELSE work[k]]
                 /\ left' = left \ {i} /\ UNCHANGED <<err, failed>>
    /\ UNCHANGED <<phase, mode, disk, args, todo, files, out, result>>
Same(t) == Src(t) = Formatted(t)
(* the text in memory, once formatted, is reported or written *)
AsWritten(t) == [t EXCEPT !.nl = "\n", !.lead = 0, !.fin = 1, !.bl = [i \in 1..Len(t.bl) |-> t.bl[i]]]
Finish ==
    /\ phase = "work" /\ Busy # {}
    /\ \E i \in Choices(Busy) :
        LET t == work[i]  p == files[i].p
            ws == [k \in 1..Len(Warnings(t)) |-> <<"warning", files[i].disp, Warnings(t)[k][1], Warnings(t)[k][2]>>]
        IN  /\ work' = [k \in Busy \ {i} |-> work[k]]
            /\ IF mode = "check" /\ ~Same(t) THEN err' = err \o ws \o <<<<"not formatted", files[i].disp>>>> /\ failed' = TRUE /\ UNCHANGED <<disk, out>>
               ELSE IF mode = "write" /\ ~Same(t) /\ disk[p].r = "ro" THEN err' = err \o ws \o <<<<"Error writing", files[i].disp>>>> /\ failed' = TRUE /\ UNCHANGED <<disk, out>>
               ELSE IF mode = "write" /\ ~Same(t) THEN err' = err \o ws /\ disk' = [disk EXCEPT ![p].r = "written"] /\ out' = Append(out, files[i].disp) /\ UNCHANGED failed
               ELSE IF mode = "print" THEN err' = err \o ws /\ out' = Append(out, Formatted(t)) /\ UNCHANGED <<disk, failed>>
               ELSE IF mode = "diff" THEN err' = err \o ws /\ out' = Append(out, [name |-> files[i].disp, src |-> Src(t), out |-> Formatted(t)]) /\ UNCHANGED <<disk, failed>>
               ELSE err' = err \o ws /\ UNCHANGED <<disk, out, failed>>
    /\ UNCHANGED <<phase, mode, args, todo, files, left, result>>
Worked == phase = "work" /\ left = {} /\ Busy = {} /\ phase' = "end" /\ UNCHANGED <<mode, disk, args, todo, files, work, left, out, err, failed, result>>
(* standard input is the text of the first file; the files given are left alone *)
Input == IF Exists = {} THEN NoText ELSE disk[CHOOSE p \in Exists : \A q \in Exists : p = q \/ Less(p, q)].t
InputBad == Exists # {} /\ disk[CHOOSE p \in Exists : \A q \in Exists : p = q \/ Less(p, q)].r = "bin"
End ==
    /\ phase = "end"
    /\ phase' = "done"
    /\ result' = [code |-> IF failed \/ (mode \in Stdin /\ InputBad) THEN 1 ELSE 0]
    /\ IF mode \notin Stdin THEN UNCHANGED <<out, err>>
       ELSE IF InputBad THEN err' = <<<<"Error reading", "stdin">>>> /\ UNCHANGED out
       ELSE /\ out' = (IF mode \in {"stdin-diff", "dash-diff"} THEN <<[name |-> "<stdin>", src |-> Src(Input), out |-> Formatted(Input)]>> ELSE <<Formatted(Input)>>)
            /\ err' = [k \in 1..Len(Warnings(Input)) |-> <<"warning", "<stdin>", Warnings(Input)[k][1], Warnings(Input)[k][2]>>]
    /\ UNCHANGED <<mode, disk, args, todo, files, work, left, failed>>
Next == AddFile \/ Grow \/ AddArg \/ Start \/ Expand \/ Expanded \/ Take \/ Finish \/ Worked \/ End
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- properties *)
Done == phase = "done"
Chosen == {files[i].p : i \in 1..Len(files)}
Readable(p) == p \in Exists /\ disk[p].r \notin {"no", "bin"}
(* whatever the order, the outcome is this *)
EndsFormatted == (Done /\ mode = "write") => \A p \in Exists : (disk[p].r = "written") = (p \in Chosen /\ Readable(p) /\ disk[p].r # "ro" /\ ~Same(disk[p].t))
ListsWritten == (Done /\ mode = "write") => Range(out) = {files[i].disp : i \in {k \in 1..Len(files) : Readable(files[k].p) /\ disk[files[k].p].r = "written"}} /\ Cardinality(Range(out)) = Len(out)
NamesUnformatted == (Done /\ mode = "check") => {x[2] : x \in {y \in Range(err) : y[1] = "not formatted"}} = {files[i].disp : i \in {k \in 1..Len(files) : Readable(files[k].p) /\ ~Same(disk[files[k].p].t)}}
StatusTells ==
    (Done /\ Parallel) => (result.code # 0) = (\E i \in 1..Len(files) : ~Readable(files[i].p) \/ (~Same(disk[files[i].p].t) /\ (mode = "check" \/ disk[files[i].p].r = "ro")))
OnlyWriteWrites == mode # "write" => \A p \in Exists : disk[p].r # "written"
OnceEach == \A i, j \in 1..Len(files) : files[i].p = files[j].p => i = j

FileRec(p) == [path |-> Join(p, "/"), src |-> Src(disk[p].t), out |-> Formatted(disk[p].t), right |-> disk[p].r]
Rec == [mode |-> mode, files |-> {FileRec(p) : p \in Exists}, links |-> (IF HasLinkFile THEN {"file"} ELSE {}) \cup (IF HasLinkDir THEN {"dir"} ELSE {}),
        args |-> [i \in 1..Len(args) |-> Shown(args[i])], code |-> result.code, out |-> out, err |-> err,
        input |-> Src(Input), bad |-> InputBad]
Emit == Done => PrintT(ToJson(Rec))
====
