---- MODULE Text ----
(* Strings, sequences and the choice operator shared by all modules. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NL == "\n"

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) ==
    IF i > Len(ss) THEN "" ELSE IF i = Len(ss) THEN ss[i] ELSE ss[i] \o sep \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)

RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Map(F(_), s) == [j \in 1..Len(s) |-> F(s[j])]

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Range(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE FlatFrom(_, _)
FlatFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlatFrom(ss, i + 1)
Flat(ss) == FlatFrom(ss, 1)

(* Exhaustive checking enumerates a choice; simulation (Choices <- OneOf in the
   configuration) draws one element, so that long behaviours stay cheap. *)
OneOf(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
====
