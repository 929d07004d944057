---- MODULE Nouns ----
(***************************************************************************)
(* The built-in proper nouns (data/proper-nouns.tsv) in headings: each of   *)
(* them, in small or capital letters, takes its canonical form wherever it  *)
(* is written, and is left alone when sentence case is off or when it is    *)
(* declared a common noun.  C18.                                            *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS File, Frames, Choices(_)
(* [low, title: in small letters, with capital initials; name: canonical, with typographic apostrophes;
    one: a single word of letters; cap: low with a capital initial] *)
Nouns == ndJsonDeserialize(File)

VARIABLES phase, noun, spell, frame, opt
vars == <<phase, noun, spell, frame, opt>>

(* what surrounds the noun: before and after in the source, and the same in the output *)
F(b, a, ob, oa) == [b |-> b, a |-> a, ob |-> ob, oa |-> oa]
FrameOf(f) ==
    CASE f = "first" -> F("", " Is Seen", "", " is seen") [] f = "middle" -> F("See ", " Now", "See ", " now")
      [] f = "last" -> F("all ", "", "All ", "") [] f = "comma" -> F("Here, ", ", There", "Here, ", ", there")
      [] f = "paren" -> F("See (", ")", "See (", ")") [] f = "colon" -> F("About ", ": More", "About ", ": More")
      [] f = "em" -> F("See *", "* Now", "See *", "* now") [] f = "strong" -> F("**", "** Now", "**", "** now")
      [] f = "quote" -> F("The \"A ", " Use\"", "The \"A ", " use\"") [] f = "link" -> F("See [", "](./X)", "See [", "](./X)")
      [] f = "poss" -> F("See ", "'s Use", "See ", "'s use") [] f = "end" -> F("Why ", "?", "Why ", "?")
N == Nouns[noun]
Spelled == CASE spell = "low" -> N.low [] spell = "title" -> N.title [] spell = "same" -> N.name

Init == phase = "build" /\ noun \in 1..Len(Nouns) /\ spell \in {"low", "title", "same"} /\ frame \in Frames /\ opt \in {"on", "off", "common"}
Form ==
    CASE opt = "on" -> N.name
      [] opt = "off" -> Spelled
      [] opt = "common" -> IF frame \in {"first", "strong"} THEN N.cap ELSE N.low
Frame == FrameOf(frame)
(* a common noun is an ordinary word; words which are no ordinary ones are left to Heading.tla *)
Able == (opt = "common" => (N.plain /\ spell # "same" /\ frame # "em"))
Write == phase = "build" /\ Able /\ phase' = "done" /\ UNCHANGED <<noun, spell, frame, opt>>
Next == Write
Spec == Init /\ [][Next]_vars

Done == phase = "done"
Canonical == (Done /\ opt = "on") => Form = N.name
OffKept == (Done /\ opt = "off") => Form = Spelled
Out == IF opt = "off" THEN Frame.b \o Spelled \o Frame.a ELSE Frame.ob \o Form \o Frame.oa
Opts == [heading_sentence_case |-> opt # "off", curly_single_quotes |-> FALSE, curly_double_quotes |-> FALSE]
        @@ (IF opt = "common" THEN [heading_common_nouns |-> <<N.name>>] ELSE <<>>)
Rec == [src |-> "### " \o Frame.b \o Spelled \o Frame.a \o "\n", out |-> "### " \o Out \o "\n", opts |-> Opts]
Emit == Done => PrintT(ToJson(Rec))
====
