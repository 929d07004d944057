---- MODULE Collect ----
(***************************************************************************)
(* Which files a run without arguments treats: a walk over the tree below  *)
(* the base directory, which passes over what the patterns exclude and     *)
(* what Git ignores, and takes the files the patterns include.             *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS MinLen, MaxLen,   \* number of files, patterns and lines of ignore files
          Files, Includes, Excludes, Lines, Places, Bases, Awares, Kinds, Choices(_)

VARIABLES phase, n, base, aware, from, tree, inc, exc, ign, stack, picked

vars == <<phase, n, base, aware, from, tree, inc, exc, ign, stack, picked>>

(* ----------------------------------------------------------------- globs *)
RECURSIVE Glob(_, _)
Glob(p, s) ==
    IF p = "" THEN s = ""
    ELSE LET c == SubSeq(p, 1, 1)  rest == SubSeq(p, 2, Len(p)) IN
         CASE c = "*" -> Glob(rest, s) \/ (s # "" /\ Glob(p, SubSeq(s, 2, Len(s))))
           [] c = "?" -> s # "" /\ Glob(rest, SubSeq(s, 2, Len(s)))
           [] c = "[" -> /\ s # ""                                            \* [xy], two characters
                         /\ SubSeq(s, 1, 1) \in {SubSeq(p, 2, 2), SubSeq(p, 3, 3)}
                         /\ Glob(SubSeq(p, 5, Len(p)), SubSeq(s, 2, Len(s)))
           [] OTHER -> s # "" /\ SubSeq(s, 1, 1) = c /\ Glob(rest, SubSeq(s, 2, Len(s)))
RECURSIVE GlobPath(_, _)
GlobPath(ps, path) ==
    IF ps = <<>> THEN path = <<>>
    ELSE IF Head(ps) = "**" THEN (IF Len(ps) = 1 THEN path # <<>> ELSE GlobPath(Tail(ps), path) \/ (path # <<>> /\ GlobPath(ps, Tail(path))))
    ELSE path # <<>> /\ Glob(Head(ps), Head(path)) /\ GlobPath(Tail(ps), Tail(path))

(* a pattern: as written, is it negated, for directories only, anchored, and its segments *)
P(t, neg, dir, anch, segs) == [t |-> t, neg |-> neg, dir |-> dir, anch |-> anch, segs |-> segs]
Name(t, seg) == P(t, FALSE, FALSE, FALSE, <<seg>>)
At(t, segs) == P(t, FALSE, FALSE, TRUE, segs)
DirAny(t, seg) == P(t, FALSE, TRUE, FALSE, <<seg>>)
DirAt(t, segs) == P(t, FALSE, TRUE, TRUE, segs)
Not(p) == [p EXCEPT !.t = "!" \o @, !.neg = TRUE]
Hits(p, rel, isDir) == (p.dir => isDir) /\ GlobPath(IF p.anch THEN p.segs ELSE <<"**">> \o p.segs, rel)

Table == [
    md |-> Name("*.md", "*.md"), allmd |-> At("**/*.md", <<"**", "*.md">>), a |-> Name("a.md", "a.md"), roota |-> At("/a.md", <<"a.md">>),
    docsmd |-> At("docs/*.md", <<"docs", "*.md">>), docsall |-> At("docs/**/*.md", <<"docs", "**", "*.md">>), anya |-> At("**/a.md", <<"**", "a.md">>),
    docsin |-> At("docs/**", <<"docs", "**">>), everything |-> At("**", <<"**">>), star |-> Name("*", "*"), one |-> Name("?.md", "?.md"),
    class |-> Name("[ab].md", "[ab].md"), deep |-> At("src/docs/*.md", <<"src", "docs", "*.md">>), somedocs |-> At("**/docs/*.md", <<"**", "docs", "*.md">>),
    markdown |-> Name("*.markdown", "*.markdown"), x |-> At("docs/x/*", <<"docs", "x", "*">>), second |-> At("*/a.md", <<"*", "a.md">>),
    txt |-> Name("*.txt", "*.txt"), docs |-> Name("docs", "docs"), docsdir |-> DirAny("docs/", "docs"), inx |-> At("**/x/**", <<"**", "x", "**">>),
    xany |-> Name("x", "x"), docsx |-> At("docs/x", <<"docs", "x">>), secondb |-> At("*/b.md", <<"*", "b.md">>), outdir |-> DirAny("out/", "out"),
    rootb |-> At("/b.md", <<"b.md">>), docsxdir |-> DirAt("docs/x/", <<"docs", "x">>), nota |-> Not(Name("a.md", "a.md")), notdocsa |-> Not(At("docs/a.md", <<"docs", "a.md">>)),
    srcany |-> At("src/*", <<"src", "*">>), notdocs |-> Not(DirAt("src/docs/", <<"src", "docs">>)), hid |-> Name(".hid", ".hid"), dots |-> Name(".*", ".*"), ab |-> Name("a*", "a*"),
    git |-> At(".git/**", <<".git", "**">>), amddir |-> DirAny("a.md/", "a.md"), rootdocs |-> DirAt("/docs/", <<"docs">>)]
Pat(k) == Table[k]

(* ------------------------------------------------------------------ tree *)
IsPrefix(d, p) == Len(d) <= Len(p) /\ SubSeq(p, 1, Len(d)) = d
Parents(p) == {SubSeq(p, 1, k) : k \in 1..(Len(p) - 1)}
DirsOf(T) == UNION {Parents(p) : p \in T}
Rel(p, d) == SubSeq(p, Len(d) + 1, Len(p))
(* names in the order of their bytes *)
Names == <<".a.md", ".git", ".hid", "A.MD", "a.md", "ab.md", "b.md", "c.md", "docs", "docs.md", "l.md", "n.markdown", "out", "src", "t.txt", "x">>
Rank(s) == CHOOSE i \in 1..Len(Names) : Names[i] = s
RECURSIVE Less(_, _)
Less(p, q) == IF q = <<>> THEN FALSE ELSE IF p = <<>> THEN TRUE ELSE IF Head(p) = Head(q) THEN Less(Tail(p), Tail(q)) ELSE Rank(Head(p)) < Rank(Head(q))
RECURSIVE Sorted(_)
Sorted(PS) == IF PS = {} THEN <<>> ELSE LET m == CHOOSE p \in PS : \A q \in PS : p = q \/ Less(p, q) IN <<m>> \o Sorted(PS \ {m})

(* ------------------------------------------------------------------- Git *)
(* where ignore files may be, and what they are relative to *)
Root(pl) == IF pl = "top" \/ pl = "info" THEN <<>> ELSE <<"docs">>
PlaceOrder == <<"docs", "top", "info">>        \* the nearest first
LastHit(ps, rel, isDir) == LET H == {i \in 1..Len(ps) : Hits(Pat(ps[i]), rel, isDir)} IN IF H = {} THEN "" ELSE IF Pat(ps[CHOOSE i \in H : \A j \in H : j <= i]).neg THEN "keep" ELSE "ignore"
Says(pl, p, isDir) == IF pl \in DOMAIN ign /\ IsPrefix(Root(pl), p) /\ p # Root(pl) THEN LastHit(ign[pl], Rel(p, Root(pl)), isDir) ELSE ""
Verdicts(p, isDir) == SelectSeq([i \in 1..3 |-> Says(PlaceOrder[i], p, isDir)], LAMBDA v : v # "")
GitIgnores(p, isDir) == LET v == Verdicts(p, isDir) IN v # <<>> /\ v[1] = "ignore"
Excludes1(p, isDir) == \E i \in 1..Len(exc) : Hits(Pat(exc[i]), Rel(p, base), isDir)
Includes1(p) == \E i \in 1..Len(inc) : Hits(Pat(inc[i]), Rel(p, base), FALSE)

(* ------------------------------------------------------------ the author *)
Init ==
    /\ phase = "build" /\ n = 0 /\ tree = {} /\ inc = <<>> /\ exc = <<>> /\ ign = [p \in {} |-> 0] /\ stack = <<>> /\ picked = {}
    /\ base \in (Bases) /\ aware \in (Awares) /\ from \in {"base", "below", "config"}
AddFile == /\ phase = "build" /\ n < MaxLen /\ "file" \in Kinds /\ \E p \in Choices(Files \ tree) : tree' = tree \cup {p}
           /\ n' = n + 1 /\ UNCHANGED <<phase, base, aware, from, inc, exc, ign, stack, picked>>
AddInclude == /\ phase = "build" /\ n < MaxLen /\ "inc" \in Kinds /\ \E k \in Choices(Includes) : inc' = Append(inc, k)
              /\ n' = n + 1 /\ UNCHANGED <<phase, base, aware, from, tree, exc, ign, stack, picked>>
AddExclude == /\ phase = "build" /\ n < MaxLen /\ "exc" \in Kinds /\ \E k \in Choices(Excludes) : exc' = Append(exc, k)
              /\ n' = n + 1 /\ UNCHANGED <<phase, base, aware, from, tree, inc, ign, stack, picked>>
AddLine == /\ phase = "build" /\ n < MaxLen /\ "ign" \in Kinds
           /\ \E pl \in Choices(Places), k \in Choices(Lines) : ign' = [at \in DOMAIN ign \cup {pl} |-> IF at = pl THEN Append(IF pl \in DOMAIN ign THEN ign[pl] ELSE <<>>, k) ELSE ign[at]]
           /\ n' = n + 1 /\ UNCHANGED <<phase, base, aware, from, tree, inc, exc, stack, picked>>
Start == /\ phase = "build" /\ n >= MinLen /\ inc # <<>> /\ tree # {}
         /\ phase' = "walk" /\ stack' = <<base>>
         /\ UNCHANGED <<n, base, aware, from, tree, inc, exc, ign, picked>>

(* ----------------------------------------------------------- the program *)
Children(d) == {SubSeq(p, 1, Len(d) + 1) : p \in {q \in tree : IsPrefix(d, q) /\ Len(q) > Len(d)}}
IsDir(p) == p \notin tree
Passed(p) == Excludes1(p, IsDir(p)) \/ (aware /\ (Last(p) = ".git" \/ GitIgnores(p, IsDir(p))))
Walk == /\ phase = "walk" /\ stack # <<>>
        /\ LET d == Head(stack)
               kept == {p \in Children(d) : ~Passed(p)}
           IN  /\ picked' = picked \cup {p \in kept : ~IsDir(p) /\ Includes1(p)}
               /\ stack' = Tail(stack) \o Sorted({p \in kept : IsDir(p)})
        /\ UNCHANGED <<phase, n, base, aware, from, tree, inc, exc, ign>>
End == phase = "walk" /\ stack = <<>> /\ phase' = "done" /\ UNCHANGED <<n, base, aware, from, tree, inc, exc, ign, stack, picked>>
Next == AddFile \/ AddInclude \/ AddExclude \/ AddLine \/ Start \/ Walk \/ End
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- properties *)
Done == phase = "done"
Ways(p) == {q \in Parents(p) \cup {p} : Len(q) > Len(base)}       \* the path and the directories it passes
ExactlyChosen ==
    Done => \A p \in tree : (p \in picked) = (/\ IsPrefix(base, p) /\ Includes1(p)
                                              /\ ~\E v \in Ways(p) : Excludes1(v, v # p)
                                              /\ aware => ~\E q \in Ways(p) : Last(q) = ".git" \/ GitIgnores(q, q # p))
(* without patterns of directories an excluded file is never taken, whatever includes it *)
ExclusionWins == Done => \A p \in picked : ~Excludes1(p, FALSE)

(* l.md is a link to a.md where both are there; a file is treated once, by its first name *)
Linked == {<<"a.md">>, <<"l.md">>} \subseteq tree
Treated == Sorted(IF Linked /\ <<"a.md">> \in picked THEN picked \ {<<"l.md">>} ELSE picked)
Target(p) == IF Linked /\ p = <<"l.md">> THEN <<"a.md">> ELSE p
OnceEach == Done => \A i, j \in 1..Len(Treated) : Target(Treated[i]) = Target(Treated[j]) => i = j

PlaceFile(pl) == CASE pl = "top" -> ".gitignore" [] pl = "docs" -> "docs/.gitignore" [] pl = "info" -> ".git/info/exclude"
(* whether an ignored base directory matters is left open *)
Clear == ~(aware /\ base # <<>> /\ GitIgnores(base, TRUE))
Rec == [tree |-> {Join(p, "/") : p \in tree}, base |-> Join(base, "/"), from |-> from, aware |-> aware,
        inc |-> [i \in 1..Len(inc) |-> Pat(inc[i]).t], exc |-> [i \in 1..Len(exc) |-> Pat(exc[i]).t],
        ign |-> {<<PlaceFile(pl), [i \in 1..Len(ign[pl]) |-> Pat(ign[pl][i]).t]>> : pl \in DOMAIN ign},
        linked |-> Linked, order |-> [i \in 1..Len(Treated) |-> Join(Target(Treated[i]), "/")]]
Emit == (Done /\ Clear) => PrintT(ToJson(Rec))
====
