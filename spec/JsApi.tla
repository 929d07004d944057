---- MODULE JsApi ----
(***************************************************************************)
(* The JavaScript functions around the WebAssembly module: calls may come  *)
(* before, while and after the module is loaded and initialised, which     *)
(* happens once; every call reaches the module once, with its options.     *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS MaxCalls, Kinds, OptSets, Callbacks

VARIABLES loader, calls, reached, events, loads

vars == <<loader, calls, reached, events, loads>>

(* what the module receives: the callback is no option *)
Passed(c) == [fn |-> c.kind, opts |-> c.opts, cb |-> IF c.kind # "code" THEN "none" ELSE IF c.cb = "function" THEN "function" ELSE "null"]
Fails(c) == c.opts = "wrong"

Init == loader = "idle" /\ calls = <<>> /\ reached = <<>> /\ events = <<>> /\ loads = 0
Call ==
    /\ Len(calls) < MaxCalls
    /\ \E k \in Kinds, o \in OptSets, b \in Callbacks :
        /\ (k # "code" => b = "absent")
        /\ calls' = Append(calls, [kind |-> k, opts |-> o, cb |-> b, st |-> "waits"])
        /\ events' = Append(events, [e |-> "call", kind |-> k, opts |-> o, cb |-> b])
    /\ loader' = (IF loader = "idle" THEN "loading" ELSE loader)
    /\ loads' = (IF loader = "idle" THEN loads + 1 ELSE loads)
    /\ UNCHANGED reached
Loaded == loader = "loading" /\ loader' = "initialising" /\ events' = Append(events, [e |-> "loaded"]) /\ UNCHANGED <<calls, reached, loads>>
Ready == loader = "initialising" /\ loader' = "ready" /\ events' = Append(events, [e |-> "ready"]) /\ UNCHANGED <<calls, reached, loads>>
(* calls go on in the order in which they came *)
Finish ==
    /\ loader = "ready"
    /\ \E i \in 1..Len(calls) :
        /\ calls[i].st = "waits" /\ \A j \in 1..i - 1 : calls[j].st # "waits"
        /\ calls' = [calls EXCEPT ![i].st = IF Fails(calls[i]) THEN "failed" ELSE "done"]
        /\ reached' = Append(reached, Passed(calls[i]))
    /\ UNCHANGED <<loader, events, loads>>
Next == Call \/ Loaded \/ Ready \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Loaded) /\ WF_vars(Ready) /\ WF_vars(Finish)

Over == Len(calls) = MaxCalls /\ \A i \in 1..Len(calls) : calls[i].st # "waits"
Once == loads <= 1
NotBefore == reached # <<>> => loader = "ready"
Each == Over => Len(reached) = Len(calls) /\ \A i \in 1..Len(calls) : reached[i] = Passed(calls[i])
AllEnd == (Len(calls) > 0) ~> (\A i \in 1..Len(calls) : calls[i].st # "waits")

Rec == [events |-> events, reached |-> reached, ends |-> [i \in 1..Len(calls) |-> calls[i].st]]
Emit == Over => PrintT(ToJson(Rec))
====
