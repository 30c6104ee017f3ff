------------------------------ MODULE OptionsMC ------------------------------
(* Every history of building, deriving and editing options vectors, up to a  *)
(* depth; each is printed and replayed on the real routine.                  *)
EXTENDS Options, TLC, Json
CONSTANTS Depth, Emit
VARIABLES vs, h
vars == <<vs, h>>
KW == {<<>>, <<<<"PF_ALG", "2.0">>>>, <<<<"PF_ALG", "3.0">>, <<"OUT_ALL", "0.0">>>>, <<<<"PF_DC", "1.0">>>>}
Init == vs = <<>> /\ h = <<>>
Actions == {[op |-> "new", i |-> 0, kw |-> k] : k \in KW}
           \cup {[op |-> o, i |-> i, kw |-> k] : o \in {"from", "set"}, i \in DOMAIN vs, k \in KW}
Next == Len(h) < Depth /\ \E a \in Actions : vs' = Step(vs, a) /\ h' = Append(h, a)
Spec == Init /\ [][Next]_vars
Complete == \A i \in DOMAIN vs : DOMAIN Defaults \subseteq DOMAIN vs[i]
\* an entry differs from the default only if some step named it
OnlyWhatWasNamed == \A i \in DOMAIN vs : \A n \in DOMAIN Defaults :
    vs[i][n] # Defaults[n] => \E j \in DOMAIN h : \E k \in DOMAIN h[j].kw : h[j].kw[k][1] = n /\ h[j].kw[k][2] = vs[i][n]
\* one step changes at most one vector
OneAtATime == [][\A i \in DOMAIN vs : vs'[i] = vs[i] \/ (h'[Len(h')].op = "set" /\ h'[Len(h')].i = i)]_vars
Emits == (Emit /\ Len(h) = Depth) => PrintT(<<"EMIT", ToJson(h)>>)
=============================================================================
