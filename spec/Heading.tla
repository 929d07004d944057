---- MODULE Heading ----
(***************************************************************************)
(* Headings in sentence case (heading.rs, noun directives of document.rs).  *)
(* An author writes headings word by word, with compounds, quotations,      *)
(* delimiters and markup, and directives which declare nouns; the system    *)
(* passes over the words of each heading, remembering only whether a first  *)
(* word is due, whether a delimiter came just before, and whether it is in  *)
(* a quotation.  C18.                                                       *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS MinLen, MaxLen, WordSet, Marks, Opts, MaxHeads, MaxDirs, Choices(_)

VARIABLES phase, opt, doc, head, grp, quo, refs, hi, ai, st, line, forms, found, out

vars == <<phase, opt, doc, head, grp, quo, refs, hi, ai, st, line, forms, found, out>>

(* ------------------------------------------------------------------- words *)
(* src as written, key for matching nouns, low and cap: the two ordinary forms,
   kind: plain, caps (an acronym or emphasis, kept), I (the pronoun, always cap),
   same (code, numbers, addresses: kept); up: written with a capital; alpha: has letters *)
W(src, key, low, cap, kind, up, alpha) ==
    [src |-> src, key |-> key, low |-> low, cap |-> cap, kind |-> kind, up |-> up, alpha |-> alpha]
Plain2(low, cap) == {W(low, low, low, cap, "plain", FALSE, TRUE), W(cap, low, low, cap, "plain", TRUE, TRUE)}
Odd(src, low, cap, up) == W(src, low, low, cap, "plain", up, TRUE)
Caps(src, low) == W(src, low, low, src, "caps", TRUE, TRUE)
Same(src, alpha) == W(src, "", src, src, "same", FALSE, alpha)
Words ==
    (IF "basic" \in WordSet THEN Plain2("guide", "Guide") ELSE {})
    \cup (IF "plain" \in WordSet THEN Plain2("guide", "Guide") \cup Plain2("the", "The") \cup {Odd("wORD", "word", "Word", FALSE), Odd("MiXed", "mixed", "Mixed", TRUE)} ELSE {})
    \cup (IF "more" \in WordSet THEN Plain2("don't", "Don't") \cup Plain2("isn{rsq}t", "Isn{rsq}t") \cup Plain2("{A}ber", "{U}ber") \cup Plain2("etc.", "Etc.") \cup {W("{W}{K}", "", "{W}{K}", "{W}{K}", "plain", FALSE, TRUE), Odd("File.md", "file.md", "File.md", TRUE), Odd("iPhone5", "iphone5", "Iphone5", FALSE)} ELSE {})
    \cup (IF "caps" \in WordSet THEN {Caps("API", "api"), Caps("APIs", "apis"), Caps("U.S.", "u.s."), Caps("Ph.D.", "ph.d."), Caps("A", "a"), Caps("NOTE", "note"), Caps("HTTPd", "httpd")} ELSE {})
    \cup (IF "I" \in WordSet THEN {W("I", "i", "I", "I", "caps", TRUE, TRUE), W("i", "i", "I", "I", "I", FALSE, TRUE), W("i'm", "i'm", "I'm", "I'm", "I", FALSE, TRUE), W("I'VE", "i've", "I'VE", "I'VE", "caps", TRUE, TRUE), W("I'Ll", "i'll", "I'll", "I'll", "I", TRUE, TRUE),
             W("i{rsq}d", "i{rsq}d", "I{rsq}d", "I{rsq}d", "I", FALSE, TRUE), W("I{rsq}Ve", "i{rsq}ve", "I{rsq}ve", "I{rsq}ve", "I", TRUE, TRUE)} ELSE {})
    \cup (IF "same" \in WordSet THEN {Same("`Some Code`", FALSE), Same("``A ` B``", FALSE), Same("2.0", FALSE), Same("`x`", FALSE), Same("<https://E.x/Path>", FALSE), Same("https://E.x/Path", FALSE), Same("&copy;", FALSE)} ELSE {})
    (* apostrophes at the ends of words, which are no quotation marks *)
    \cup (IF "apos" \in WordSet THEN Plain2("goin'", "Goin'") \cup Plain2("don't", "Don't") \cup {Same("'80s", TRUE)} ELSE {})
    (* words of overlapping nouns *)
    \cup (IF "over" \in WordSet THEN Plain2("cool", "Cool") \cup {Odd("my", "my", "My", FALSE), Odd("lib", "lib", "Lib", FALSE), Odd("guide", "guide", "Guide", FALSE), Odd("two", "two", "Two", FALSE)} ELSE {})
    \cup (IF "edge" \in WordSet THEN {Odd("lib9", "lib9", "Lib9", FALSE), Odd("9cool", "9cool", "9cool", FALSE)} ELSE {})
    (* words of nouns *)
    \cup (IF "nouns" \in WordSet THEN Plain2("github", "Github") \cup Plain2("actions", "Actions") \cup Plain2("pages", "Pages") \cup {Caps("GITHUB", "github"), Odd("GitHub", "github", "Github", TRUE)}
          \cup Plain2("javascript", "Javascript") \cup Plain2("node.js", "Node.Js") \cup Plain2("ios", "Ios") ELSE {})
    \cup (IF "states" \in WordSet THEN Plain2("united", "United") \cup Plain2("states", "States") \cup Plain2("of", "Of") \cup Plain2("america", "America") \cup Plain2("south", "South") \cup Plain2("north", "North") \cup {Caps("UNITED", "united")} ELSE {})
    \cup (IF "user" \in WordSet THEN Plain2("my", "My") \cup Plain2("cool", "Cool") \cup Plain2("lib", "Lib") \cup Plain2("two", "Two") \cup Plain2("mylib", "Mylib") \cup {Odd("MyLib", "mylib", "Mylib", TRUE)} ELSE {})

(* the nouns of the built-in list the words above can form; keys with joints *)
Noun(name, keys, len) == [name |-> name, keys |-> keys, len |-> len]
Builtin == <<
    Noun("GitHub", <<"github">>, 6), Noun("JavaScript", <<"javascript">>, 10), Noun("Node.js", <<"node.js">>, 7), Noun("iOS", <<"ios">>, 3),
    Noun("GitHub Actions", <<"github", " ", "actions">>, 14), Noun("GitHub Pages", <<"github", " ", "pages">>, 12),
    Noun("United States", <<"united", " ", "states">>, 13), Noun("United States of America", <<"united", " ", "states", " ", "of", " ", "america">>, 24),
    Noun("South America", <<"south", " ", "america">>, 13), Noun("North America", <<"north", " ", "america">>, 13), Noun("America", <<"america">>, 7)>>
(* what a configuration or directive may name *)
NounOf(name) ==
    CASE name = "MyLib" -> Noun(name, <<"mylib">>, 5)
      [] name = "My Cool Lib" -> Noun(name, <<"my", " ", "cool", " ", "lib">>, 11)
      [] name = "Lib Two Guide" -> Noun(name, <<"lib", " ", "two", " ", "guide">>, 13)
      [] name = "my-cool-lib" -> Noun(name, <<"my", "-", "cool", "-", "lib">>, 11)
      [] name = "cool/LIB" -> Noun(name, <<"cool", "/", "lib">>, 8)
      [] name = "gitHUB" -> Noun(name, <<"github">>, 6)
      [] name = "github ACTIONS" -> Noun(name, <<"github", " ", "actions">>, 14)
      [] name = "The Guide" -> Noun(name, <<"the", " ", "guide">>, 9)
      [] name = "GuiDE" -> Noun(name, <<"guide">>, 5)
      [] name = "GitHub" -> Noun(name, <<"github">>, 6)
      [] name = "javascript" -> Noun(name, <<"javascript">>, 10)
      [] name = "GITHUB Actions" -> Noun(name, <<"github", " ", "actions">>, 14)
      [] name = "united states of america" -> Noun(name, <<"united", " ", "states", " ", "of", " ", "america">>, 24)
      [] name = "America" -> Noun(name, <<"america">>, 7)
      \* as many words, overlapping, of different lengths
      [] name = "cool LIB" -> Noun(name, <<"cool", " ", "lib">>, 8)
      [] name = "Lib GUIde" -> Noun(name, <<"lib", " ", "guide">>, 9)
      [] name = "my COOL" -> Noun(name, <<"my", " ", "cool">>, 7)
      [] name = "Cool lib-TWO" -> Noun(name, <<"cool", " ", "lib", "-", "two">>, 12)
ProperNames == {"MyLib", "My Cool Lib", "Lib Two Guide", "my-cool-lib", "cool/LIB", "gitHUB", "github ACTIONS", "The Guide", "GuiDE", "cool LIB", "Lib GUIde", "my COOL", "Cool lib-TWO"}
CommonNames == {"GitHub", "javascript", "GITHUB Actions", "united states of america", "America", "MyLib", "GuiDE"}

(* ------------------------------------------------------------------- author *)
Dense == "over" \in WordSet   \* nothing but the words, so that nouns are met often
(* a heading is a sequence of atoms: words (with what comes before and after
   them), joints of compounds, delimiters, quotation marks *)
Atom(t, s) == [t |-> t, s |-> s, w |-> Same("", FALSE), pre |-> "", poss |-> "", punct |-> "", post |-> "", opre |-> "", opost |-> "", lab |-> FALSE]
Groups == {"em", "strong", "paren", "rel", "relt", "rela", "relp", "html", "cmt", "ref", "short", "ext", "img"}
GPre(g) ==
    CASE g = "em" -> "*" [] g = "strong" -> "**" [] g = "paren" -> "(" [] g = "html" -> "<b class=\"Big One\">" [] g = "img" -> "!["
      [] g = "cmt" -> "<!-- Some: \"Big Note -->"
      [] OTHER -> "["
GPost(g) ==
    CASE g = "em" -> "*" [] g = "strong" -> "**" [] g = "paren" -> ")" [] g = "html" -> "</b>" [] g = "rel" -> "](./Some/Path-To.md)"
      [] g = "relt" -> "](./Some/Path.md \"A ) Title\")" [] g = "rela" -> "](<./Some Dir/A(B.md>)" [] g = "relp" -> "](./A(B)/C\\)D.md)" [] g = "cmt" -> ""
      [] g = "ref" -> "][Ref Label]" [] g = "short" -> "]" [] g = "ext" -> "](https://E.x/To \"Some Title\")" [] g = "img" -> "](Some/Image.PNG)"
(* how the system writes the end of the group, if its text keeps its case *)
GPostOut(g) ==
    CASE g = "ext" -> "]" [] g = "rela" -> "](./Some%20Dir/A\\(B.md)" [] g = "relp" -> "](./A\\(B\\)/C\\)D.md)"
      [] OTHER -> GPost(g)

LastT == IF head = <<>> THEN "start" ELSE Last(head).t
LastWord == LastT = "w"
Closed == LastWord => Last(head).post = "" /\ Last(head).punct = ""
InHead == phase = "head"
Count == Cardinality({i \in 1..Len(head) : head[i].t = "w"})

NewSt == [first |-> TRUE, aft |-> FALSE, mode |-> "none", outer |-> "none", txt |-> ""]
Init ==
    /\ phase = "build" /\ doc = <<>> /\ head = <<>> /\ grp = "none" /\ quo = "none" /\ refs = <<>>
    /\ hi = 1 /\ ai = 0 /\ st = NewSt /\ line = "" /\ forms = <<>> /\ found = {} /\ out = <<>>
    /\ opt \in (Opts)

rest == <<opt, hi, ai, st, line, forms, found, out>>

Heads == {i \in 1..Len(doc) : doc[i].t = "head"}
OpenHeading ==
    /\ phase = "build" /\ Cardinality(Heads) < MaxHeads
    /\ phase' = "head" /\ head' = <<>> /\ UNCHANGED <<doc, grp, quo, refs, rest>>
Directive ==
    /\ phase = "build" /\ ~Dense /\ Cardinality(Heads) < MaxHeads /\ Len(doc) - Cardinality(Heads) < MaxDirs
    /\ \E d \in Choices(({"proper"} \X ProperNames \X ProperNames) \cup ({"common"} \X CommonNames \X CommonNames)) :
           doc' = Append(doc, [t |-> d[1], names |-> IF d[2] = d[3] THEN <<d[2]>> ELSE <<d[2], d[3]>>])
    /\ UNCHANGED <<phase, head, grp, quo, refs, rest>>

(* where a word may start *)
Fresh == LastT \in {"start", "w", "d", "oq", "cq"}
(* an apostrophe and a single quotation mark are told apart within 50 characters *)
Apos(w) == w.low \in {"goin'", "'80s"}
QuoteStart == CHOOSE i \in 1..Len(head) : head[i].t = "oq" /\ \A j \in (i + 1)..Len(head) : head[j].t # "oq"
AddWord ==
    /\ InHead /\ Count < MaxLen /\ (quo \in {"single", "nested"} => Len(head) - QuoteStart < 4)
    /\ \E w \in Choices(IF LastT = "j" THEN {w \in Words : w.kind \in {"plain", "caps"} /\ w.key \notin {"etc.", "u.s.", "ph.d.", ""}} ELSE Words) :
       \E x \in Choices(IF Dense THEN {""} ELSE {"", "'s", ",", "{rsq}s"} \cup (IF w.kind = "plain" THEN {".", "?"} ELSE {})) :
           /\ (Apos(w) => x = "" /\ quo \notin {"single", "nested"} /\ LastT # "oq")
           /\ (w.kind = "same" => x = "") /\ (w.kind = "I" => x \in {"", ","})
           /\ (LastT = "oq" => w.alpha \/ (w.src = "2.0" /\ quo = "double"))
           /\ (x \in {"'s", "{rsq}s"} => quo \notin {"single", "nested"} /\ w.key \notin {"etc.", "u.s.", "ph.d.", "don't", "isn{rsq}t", "a"} /\ w.kind # "caps")
           /\ (x = "." => w.key \notin {"etc.", "u.s.", "ph.d.", "node.js", "file.md"})
           /\ head' = Append(head, [Atom("w", "") EXCEPT !.w = w, !.poss = IF x \in {"'s", "{rsq}s"} THEN x ELSE "", !.punct = IF x \in {"'s", "{rsq}s"} THEN "" ELSE x])
    /\ UNCHANGED <<phase, doc, grp, quo, refs, rest>>
AddWordIn ==
    /\ InHead /\ Marks # {} /\ Count < MaxLen /\ grp = "none" /\ LastT \in {"start", "w", "d", "cq"} /\ quo = "none"
    /\ \E g \in Choices(IF refs = <<>> THEN Marks ELSE Marks \ {"ref", "short", "ext"}) :
       \E w \in Choices(IF g \in {"ref", "short", "ext", "rel", "relt", "rela", "relp"} THEN {w \in Words : w.alpha} ELSE Words) :
           /\ head' = Append(head, [Atom("w", "") EXCEPT !.w = w, !.pre = GPre(g), !.opre = GPre(g)])
           /\ grp' = g
    /\ UNCHANGED <<phase, doc, quo, refs, rest>>
(* the last word of the group takes its end *)
Gap(a, b) ==
    IF a.t \in {"j", "oq"} \/ b.t \in {"j", "cq"} \/ a.t = "d" \/ b.t = "d" THEN "" ELSE " "
AtomSrc(a) ==
    CASE a.t = "w" -> a.pre \o a.w.src \o a.poss \o a.punct \o a.post
      [] OTHER -> a.s
RECURSIVE GapText(_, _)
GapText(as, i) == IF i > Len(as) THEN "" ELSE (IF i = 1 THEN "" ELSE Gap(as[i - 1], as[i])) \o AtomSrc(as[i]) \o GapText(as, i + 1)
GroupStart == CHOOSE i \in 1..Len(head) : head[i].pre # "" /\ \A j \in (i + 1)..Len(head) : head[j].pre = ""
GroupSrc == LET as == SubSeq(head, GroupStart, Len(head)) IN GapText([as EXCEPT ![1].pre = ""], 1)
CloseGroup ==
    /\ InHead /\ grp # "none" /\ LastWord
    /\ (grp \in {"ref", "short", "ext", "img"} => \A i \in GroupStart..Len(head) : head[i].w.kind # "same")
    /\ head' = [head EXCEPT ![Len(head)].post = GPost(grp), ![Len(head)].opost = GPostOut(grp), ![Len(head)].lab = grp \in {"short", "ext"}]
    /\ refs' = IF grp \in {"short", "ext"} THEN Append(refs, [l |-> GroupSrc, g |-> grp])
               ELSE IF grp = "ref" THEN Append(refs, [l |-> "Ref Label", g |-> grp]) ELSE refs
    /\ grp' = "none"
    /\ UNCHANGED <<phase, doc, quo, rest>>
(* a compound is joined by one kind of joint and carries no punctuation within *)
CompoundStart == CHOOSE i \in 1..Len(head) : (i = 1 \/ head[i - 1].t # "j") /\ head[i].t = "w" /\ \A j \in (i + 1)..Len(head) : head[j].t = "j" \/ head[j - 1].t = "j"
AddJoint ==
    /\ InHead /\ LastWord /\ ~Apos(Last(head).w) /\ Closed /\ Count < MaxLen /\ Last(head).poss = "" /\ Last(head).w.kind \in {"plain", "caps"} /\ Last(head).w.key \notin {"etc.", ""}
    /\ \E s \in Choices(IF Dense THEN {"-"} ELSE {"-", "/"}) :
           /\ \A i \in CompoundStart..Len(head) : head[i].t = "j" => head[i].s = s
           /\ head' = Append(head, Atom("j", s))
    /\ UNCHANGED <<phase, doc, grp, quo, refs, rest>>
AddDelim ==
    /\ InHead /\ ~Dense /\ LastT \in {"w", "cq"} /\ (LastWord => ~Apos(Last(head).w) /\ Last(head).punct = "" /\ Last(head).w.src # "https://E.x/Path") /\ Count < MaxLen
    /\ \E s \in Choices({": ", "; ", "{em}", " {en} ", ": ", " {em} ", ":"}) : head' = Append(head, Atom("d", s))
    /\ UNCHANGED <<phase, doc, grp, quo, refs, rest>>
OpenQuote ==
    /\ InHead /\ ~Dense /\ quo = "none" /\ grp = "none" /\ Count < MaxLen
    /\ (LastT \in {"start", "w"} \/ (LastT = "d" /\ Last(head).s \in {": ", "; ", " {en} "}))
    /\ \E q \in Choices({"double", "single", "double"}) : quo' = q /\ head' = Append(head, Atom("oq", IF q = "double" THEN "\"" ELSE "'"))
    /\ UNCHANGED <<phase, doc, grp, refs, rest>>
(* single quotation marks within double ones; straight ones are told apart only by a
   space before or a letter after them *)
OpenNested ==
    /\ InHead /\ quo = "double" /\ grp = "none" /\ Count < MaxLen /\ (LastT = "w" \/ (LastT = "oq" /\ opt.curly))
    /\ quo' = "nested" /\ head' = Append(head, Atom("oq", "'"))
    /\ UNCHANGED <<phase, doc, grp, refs, rest>>
CloseQuote ==
    /\ InHead /\ quo # "none" /\ grp = "none" /\ LastWord /\ ~Apos(Last(head).w)
    /\ (quo \in {"single", "nested"} => Last(head).w.src # "https://E.x/Path")   \* an address may contain an apostrophe
    /\ head' = Append(head, Atom("cq", IF quo = "double" THEN "\"" ELSE "'")) /\ quo' = IF quo = "nested" THEN "double" ELSE "none"
    /\ UNCHANGED <<phase, doc, grp, refs, rest>>
CloseHeading ==
    /\ InHead /\ grp = "none" /\ quo = "none" /\ LastT \in {"w", "cq"} /\ (LastWord => ~Apos(Last(head).w)) /\ Count >= MinLen
    /\ phase' = "build" /\ doc' = Append(doc, [t |-> "head", atoms |-> head]) /\ head' = <<>>
    /\ UNCHANGED <<grp, quo, refs, rest>>

(* ------------------------------------------------------------------- system *)
Entry == doc[hi]
(* the nouns in force at a heading *)
RECURSIVE NamesTo(_, _)
NamesTo(kind, i) == IF i >= hi THEN <<>> ELSE (IF doc[i].t = kind THEN doc[i].names ELSE <<>>) \o NamesTo(kind, i + 1)
Proper == Map(NounOf, opt.proper \o NamesTo("proper", 1))
Common == Map(NounOf, opt.common \o NamesTo("common", 1))
IsCommon(keys) == \E i \in 1..Len(Common) : Common[i].keys = keys
Known == Proper \o Builtin
IsMulti(n) == \E k \in Range(n.keys) : k = " "

(* the word atoms from i on which spell the noun, joints and gaps included *)
Atoms == Entry.atoms
RECURSIVE Spells(_, _, _, _)
Spells(keys, k, i, start) ==
    IF k > Len(keys) THEN i - 1
    ELSE IF i > Len(Atoms) THEN 0
    ELSE IF keys[k] \in {"-", "/"} THEN (IF Atoms[i].t = "j" /\ Atoms[i].s = keys[k] THEN Spells(keys, k + 1, i + 1, start) ELSE 0)
    ELSE IF keys[k] = " "
         THEN (IF Atoms[i].t = "w" /\ Atoms[i - 1].t = "w" /\ Atoms[i].pre = "" /\ Atoms[i - 1].post = "" /\ Atoms[i - 1].poss = "" /\ Atoms[i - 1].punct = ""
               THEN Spells(keys, k + 1, i, start) ELSE 0)
    ELSE IF Atoms[i].t = "w" /\ Atoms[i].w.key = keys[k] THEN Spells(keys, k + 1, i + 1, start) ELSE 0

(* nouns of several words are found first, the longest ones before the others;
   of equally long ones, those of the user *)
Multi == {n \in 1..Len(Known) : IsMulti(Known[n]) /\ ~IsCommon(Known[n].keys)}
Before(m, n) == Known[m].len > Known[n].len \/ (Known[m].len = Known[n].len /\ m < n)
Free(taken, i, j) == \A x \in taken : x.j < i \/ x.i > j
RECURSIVE FindAll(_, _, _)
FindAll(n, i, taken) ==
    IF i > Len(Atoms) THEN taken
    ELSE LET j == IF Atoms[i].t = "w" THEN Spells(Known[n].keys, 1, i, i) ELSE 0
         IN  IF j > 0 /\ Free(taken, i, j) THEN FindAll(n, j + 1, taken \cup {[i |-> i, j |-> j, n |-> n]}) ELSE FindAll(n, i + 1, taken)
RECURSIVE FindMulti(_, _)
FindMulti(todo, taken) ==
    IF todo = {} THEN taken
    ELSE LET n == CHOOSE n \in todo : \A m \in todo : m = n \/ Before(n, m) IN FindMulti(todo \ {n}, FindAll(n, 1, taken))
Found == found

CompoundFrom(i) == i = 1 \/ Atoms[i - 1].t # "j"
RECURSIVE CompoundTo(_)
CompoundTo(i) == IF i < Len(Atoms) /\ Atoms[i + 1].t = "j" THEN CompoundTo(i + 2) ELSE i
RECURSIVE KeysOf(_, _)
KeysOf(i, j) == IF i > j THEN <<>> ELSE <<IF Atoms[i].t = "j" THEN Atoms[i].s ELSE Atoms[i].w.key>> \o KeysOf(i + 1, j)
(* the noun a word or compound is: none, or the first listed *)
Lookup(keys) ==
    IF IsCommon(keys) THEN "" ELSE IF \E i \in 1..Len(Known) : Known[i].keys = keys
    THEN Known[CHOOSE i \in 1..Len(Known) : Known[i].keys = keys /\ \A h \in 1..(i - 1) : Known[h].keys # keys].name ELSE ""

WordOut(i) == IF Atoms[i].w.src = "'80s" /\ opt.curly THEN Same("{rsq}80s", TRUE) ELSE Atoms[i].w
(* how a word is written, and how that form is called *)
Form(i, cap) ==
    LET w == WordOut(i)
        n == IF w.key = "" THEN "" ELSE Lookup(<<w.key>>)
    IN  IF w.kind \in {"caps", "same"} THEN <<w.src, "src">> ELSE IF w.kind = "I" THEN <<w.cap, "canon">>
        ELSE IF n # "" THEN <<n, "canon">> ELSE IF cap THEN <<w.cap, "cap">> ELSE <<w.low, "low">>

(* the text between quotation marks: kept if it starts with a small letter *)
QuoteTo(i) == CHOOSE j \in i..Len(Atoms) : Atoms[j].t = "cq" /\ Atoms[j].s = Atoms[i].s /\ \A h \in i..(j - 1) : ~(Atoms[h].t = "cq" /\ Atoms[h].s = Atoms[i].s)
(* the quotation around a nested one *)
Within(i) == \E h \in 1..i : Atoms[h].t = "oq" /\ h # i /\ QuoteTo(h) > i
QuoteMode(i) ==
    LET A == {j \in i..QuoteTo(i) : Atoms[j].t = "w" /\ Atoms[j].w.alpha}
    IN  IF A = {} THEN "keep" ELSE IF Atoms[CHOOSE j \in A : \A h \in A : j <= h].w.up THEN "case" ELSE "keep"
Curl(a) ==
    IF a.s = "\"" THEN (IF ~opt.curly THEN "\"" ELSE IF a.t = "oq" THEN "{ldq}" ELSE "{rdq}")
    ELSE (IF ~opt.curly THEN "'" ELSE IF a.t = "oq" THEN "{lsq}" ELSE "{rsq}")

GapBefore(i) == IF i = 1 THEN "" ELSE Gap(Atoms[i - 1], Atoms[i])
LinkStart(i) == CHOOSE h \in 1..i : Atoms[h].pre # "" /\ \A g \in (h + 1)..i : Atoms[g].pre = ""
(* what the author wrote between the brackets which end at word j *)
LinkText(j) == LET h == LinkStart(j) as == SubSeq(Atoms, h, j) IN GapText([as EXCEPT ![1].pre = "", ![j - h + 1].post = ""], 1)
Step(new, next, s, fs) ==
    /\ line' = line \o new /\ ai' = next /\ st' = s /\ forms' = forms \o fs
    /\ UNCHANGED <<phase, opt, doc, head, grp, quo, refs, hi, found, out>>
(* the words i to j are written as text; a link which was its own label keeps the
   label when the case of its text changed *)
Put(i, j, text, form, s) ==
    LET body == text \o Atoms[j].poss \o Atoms[j].punct
        txt == IF Atoms[i].pre # "" THEN body ELSE st.txt \o GapBefore(i) \o body
        colon == Atoms[1].pre # "" /\ LinkStart(j) = 1 /\ Atoms[j].opost = "]" /\ Atoms[j].post # "]" /\ j < Len(Atoms) /\ Atoms[j + 1].t = "d" /\ Atoms[j + 1].s \in {":", ": "}
        end == IF ~Atoms[j].lab THEN Atoms[j].opost ELSE IF txt = LinkText(j) THEN (IF colon THEN "][]" ELSE "]") ELSE "][" \o LinkText(j) \o "]"
    IN  Step(GapBefore(i) \o Atoms[i].opre \o body \o end, j + 1, [s EXCEPT !.txt = txt],
             [k \in 1..Cardinality({h \in i..j : Atoms[h].t = "w"}) |-> form])
Same2(s) == Step(s, ai + 1, [st EXCEPT !.txt = st.txt \o s], <<>>)

(* the nouns of several words in the heading are found beforehand *)
BeginHeading ==
    /\ phase = "run" /\ hi <= Len(doc) /\ Entry.t = "head" /\ ai = 0
    /\ ai' = 1 /\ found' = IF opt.on THEN FindMulti(Multi, {}) ELSE {}
    /\ UNCHANGED <<phase, opt, doc, head, grp, quo, refs, hi, st, line, forms, out>>
Running == phase = "run" /\ hi <= Len(doc) /\ Entry.t = "head" /\ ai \in 1..Len(Atoms) /\ ai <= Len(Atoms)
Off == ~opt.on
Spent == [st EXCEPT !.first = FALSE, !.aft = FALSE]
PassQuote ==
    /\ Running /\ Atoms[ai].t \in {"oq", "cq"}
    /\ Step(GapBefore(ai) \o Curl(Atoms[ai]), ai + 1,
            IF Atoms[ai].t = "oq" THEN [NewSt EXCEPT !.mode = IF st.mode = "keep" THEN "keep" ELSE QuoteMode(ai), !.outer = st.mode]
            ELSE [NewSt EXCEPT !.first = FALSE, !.mode = IF Within(ai) THEN st.outer ELSE "none"], <<>>)
PassDelim ==
    /\ Running /\ Atoms[ai].t = "d"
    /\ Step(Atoms[ai].s, ai + 1, [st EXCEPT !.aft = TRUE, !.txt = st.txt \o Atoms[ai].s], <<>>)
PassJoint == Running /\ Atoms[ai].t = "j" /\ Same2(Atoms[ai].s)
(* kept as written: sentence case is off, or this quotation starts with a small letter *)
Keep ==
    /\ Running /\ Atoms[ai].t = "w" /\ (Off \/ st.mode = "keep")
    /\ Put(ai, ai, WordOut(ai).src, "src", st)
AtWord == Running /\ Atoms[ai].t = "w" /\ ~Off /\ st.mode # "keep"
Hit == IF \E x \in Found : x.i = ai THEN CHOOSE x \in Found : x.i = ai ELSE [i |-> 0, j |-> 0, n |-> 0]
UseMulti ==
    /\ AtWord /\ Hit.i # 0
    /\ Put(ai, Hit.j, Known[Hit.n].name, "canon", Spent)
(* a compound which is a noun as a whole *)
Whole == LET j == CompoundTo(ai) IN
    IF CompoundFrom(ai) /\ j > ai /\ (\A x \in Found : x.j < ai \/ x.i > j) THEN Lookup(KeysOf(ai, j)) ELSE ""
UseCompound ==
    /\ AtWord /\ Hit.i = 0 /\ Whole # ""
    /\ Put(ai, CompoundTo(ai), Whole, "canon", Spent)
(* any other word; only the first part of a compound may be capitalised *)
UseWord ==
    /\ AtWord /\ Hit.i = 0 /\ Whole = ""
    /\ LET f == Form(ai, CompoundFrom(ai) /\ (st.first \/ (st.aft /\ Atoms[ai].w.up))) IN Put(ai, ai, f[1], f[2], Spent)

EndHeading ==
    /\ phase = "run" /\ hi <= Len(doc) /\ Entry.t = "head" /\ ai > Len(Atoms)
    /\ out' = Append(out, line) /\ line' = "" /\ forms' = <<>> /\ found' = {} /\ ai' = 0 /\ st' = NewSt /\ hi' = hi + 1
    /\ UNCHANGED <<phase, opt, doc, head, grp, quo, refs>>
PassDirective ==
    /\ phase = "run" /\ hi <= Len(doc) /\ Entry.t # "head"
    /\ hi' = hi + 1 /\ UNCHANGED <<phase, opt, doc, head, grp, quo, refs, ai, st, line, forms, found, out>>
Start ==
    /\ phase = "build" /\ Cardinality(Heads) = MaxHeads
    /\ phase' = "run" /\ UNCHANGED <<doc, head, grp, quo, refs, rest>>
Finish ==
    /\ phase = "run" /\ hi > Len(doc)
    /\ phase' = "done" /\ UNCHANGED <<doc, head, grp, quo, refs, rest>>

Next == OpenHeading \/ Directive \/ AddWord \/ AddWordIn \/ CloseGroup \/ AddJoint \/ AddDelim \/ OpenQuote \/ OpenNested \/ CloseQuote \/ CloseHeading
        \/ Start \/ BeginHeading \/ PassQuote \/ PassDelim \/ PassJoint \/ Keep \/ UseMulti \/ UseCompound \/ UseWord \/ EndHeading \/ PassDirective \/ Finish
Spec == Init /\ [][Next]_vars
Done == phase = "done"

(* --------------------------------------------------------------- properties *)
AtEnd == phase = "run" /\ hi <= Len(doc) /\ Entry.t = "head" /\ ai > Len(Atoms)
WordAt == SelectSeq([i \in 1..Len(Atoms) |-> i], LAMBDA i : Atoms[i].t = "w")
(* every word is written exactly once *)
WordsKept == AtEnd => Len(forms) = Len(WordAt)
(* when it is off, nothing changes *)
OffKept == (AtEnd /\ Off) => \A f \in Range(forms) : f = "src"
(* a word is capitalised only as the first of the heading or of a quotation, or when the
   author capitalised it after a delimiter; and the first word never is small *)
CapWhereDue == AtEnd => \A n \in 1..Len(forms) :
    LET i == WordAt[n] IN
    /\ forms[n] = "cap" => (n = 1 \/ Atoms[i - 1].t = "oq" \/ (Atoms[i - 1].t = "d" /\ Atoms[i].w.up))
    /\ forms[n] = "low" => n > 1
(* acronyms, code, numbers and the pronoun are never changed to another word's form *)
FixedKept == AtEnd => \A n \in 1..Len(forms) : Atoms[WordAt[n]].w.kind \in {"caps", "same", "I"} => forms[n] \in {"src", "canon"}
(* what is not a noun is not given a canonical form *)
CommonWins == AtEnd => \A n \in 1..Len(forms) : LET i == WordAt[n] IN
    (forms[n] = "canon" /\ Atoms[i].w.kind = "plain" /\ IsCommon(<<Atoms[i].w.key>>)) => (\E x \in Found : x.i <= i /\ i <= x.j) \/ CompoundTo(i) > i \/ ~CompoundFrom(i)
(* proper nouns alone in their place always get their form *)
NounsForm == (AtEnd /\ ~Off) => \A n \in 1..Len(forms) : LET i == WordAt[n] IN
    (Atoms[i].w.kind = "plain" /\ Atoms[i].w.key # "" /\ Lookup(<<Atoms[i].w.key>>) # "") => forms[n] \in {"canon", "src"}

HeadSrc(e) == "#### " \o GapText(e.atoms, 1)
DirSrc(e) == "<!-- hongdown-" \o e.t \o "-nouns: " \o Join(e.names, ", ") \o " -->"
DefOf(r) == "[" \o r.l \o "]: " \o (IF r.g = "ext" THEN "https://E.x/To \"Some Title\"" ELSE "https://R.x/Up")
SrcLine(e) == IF e.t = "head" THEN HeadSrc(e) ELSE DirSrc(e)
HeadNo(i) == Cardinality({j \in 1..i : doc[j].t = "head"})
OutLine(i) == IF doc[i].t = "head" THEN "#### " \o out[HeadNo(i)] ELSE DirSrc(doc[i])
NotExt(r) == r.g # "ext"
Src == Join(Map(SrcLine, doc) \o Map(DefOf, SelectSeq(refs, NotExt)), NL \o NL) \o NL
Text == Join([i \in 1..Len(doc) |-> OutLine(i)] \o (IF refs = <<>> THEN <<>> ELSE <<Join(Map(DefOf, refs), NL)>>), NL \o NL) \o NL
OptOut == [line_width |-> 80, heading_sentence_case |-> opt.on, heading_proper_nouns |-> opt.proper, heading_common_nouns |-> opt.common]
          @@ (IF opt.curly THEN <<>> ELSE [curly_double_quotes |-> FALSE, curly_single_quotes |-> FALSE])
Rec == [src |-> Src, out |-> Text, opts |-> OptOut]
Emit == Done => PrintT(ToJson(Rec))
====
