------------------------------ MODULE CallerMC ------------------------------
EXTENDS Caller, Json
CONSTANTS Depth, Emit
VARIABLES s, h
vars == <<s, h>>
Routines == {[r |-> "a", gives |-> "case"], [r |-> "b", gives |-> "case"], [r |-> "v", gives |-> "value"]}
Init == s = Start /\ h = <<>>
Calls == {[op |-> "call", on |-> i, r |-> q.r, gives |-> q.gives] : i \in {j \in DOMAIN s.val : s.kind[j] = "case" /\ j \notin s.spoilt}, q \in Routines}
Edits == {[op |-> "edit", on |-> i] : i \in {1, 3}}
Spoils == {[op |-> "spoil", on |-> i] : i \in {j \in DOMAIN s.val : j > 3 /\ j \notin s.spoilt}}
Next == /\ Len(h) < Depth
        /\ \E c \in Calls \cup Edits \cup Spoils : s' = Do(s, c) /\ h' = Append(h, c)
Spec == Init /\ [][Next]_vars
\* only what is written to changes
Frame == [][\A i \in DOMAIN s.val : s'.val[i] # s.val[i] => h'[Len(h')].op # "call" /\ h'[Len(h')].on = i]_vars
Sound == Len(s.val) = 3 + Cardinality({i \in DOMAIN h : h[i].op = "call"})
\* of interest: those that end with a call after something was done, on a thing that was already used
Repeats == \E i \in DOMAIN h : i < Len(h) /\ h[i].op = "call" /\ h[i].r = h[Len(h)].r /\ h[i].on = h[Len(h)].on
Emits == (Emit /\ Len(h) = Depth /\ h[Depth].op = "call" /\ Repeats) => PrintT(<<"EMIT", ToJson(h)>>)
=============================================================================
