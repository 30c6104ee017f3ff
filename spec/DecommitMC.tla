----------------------------- MODULE DecommitMC -----------------------------
EXTENDS Decommit, TLC
CONSTANTS N, Costs, Shed
VARIABLES s, d
vars == <<s, d>>
Units == 1..N
Sets == SUBSET Units
\* cost 0 stands for a problem that cannot be solved
Oracle(f, held) == [S \in Sets |-> [ok |-> f[S] > 0, f |-> f[S], may |-> held \ S, sure |-> held \ S]]
Searches == [f : [Sets -> Costs], held : {Units, 1..(N - 1)}, low : {[u \in Units |-> 1]}, dear : {[u \in Units |-> u]}, cap : {N}]
Sheds == [f : {[S \in Sets |-> 1]}, held : {{}}, low : [Units -> {-1, 0, 1, 2}], dear : [Units -> 1..3], cap : -1..4]
o == Oracle(d.f, d.held)
Init == /\ d \in (IF Shed THEN Sheds ELSE Searches)
        /\ s = [phase |-> "shed", off |-> {}, first |-> {}, path |-> <<>>]
On == Units \ s.off
ShedOne == s.phase = "shed" /\ MustShed(d.low, d.cap, On)
           /\ \E u \in Dearest(d.low, d.dear, On) : s' = [s EXCEPT !.off = @ \cup {u}] /\ UNCHANGED d
Solve == s.phase = "shed" /\ ~MustShed(d.low, d.cap, On) /\ s' = [s EXCEPT !.phase = "search", !.first = s.off] /\ UNCHANGED d
Stage == s.phase = "search" /\ \E k \in Saves(o, s.off, 0) :
            s' = [s EXCEPT !.off = @ \cup {k}, !.path = Append(@, k)] /\ Better(o, s.off, 0) # {} /\ UNCHANGED d
Stop == s.phase = "search" /\ Better(o, s.off, 0) = {} /\ s' = [s EXCEPT !.phase = "done"] /\ UNCHANGED d
Next == ShedOne \/ Solve \/ Stage \/ Stop
Spec == Init /\ [][Next]_vars
\* sheds only what has a minimum, only while it must
ShedsWhatHelps == s.phase # "shed" => /\ \A u \in s.first : d.low[u] > 0
                                      /\ ~MustShed(d.low, d.cap, Units \ s.first)
                                      /\ Units \ s.first \in ShedTo(d.low, d.dear, d.cap, Units)
NeverWorse == s.phase = "done" => IF o[s.first].ok THEN o[s.off].ok /\ o[s.off].f <= o[s.first].f ELSE TRUE
StrictlyBetter == (s.phase = "done" /\ s.off # s.first /\ o[s.first].ok) => o[s.off].f < o[s.first].f
LocallyBest == s.phase = "done" => \A k \in o[s.off].sure : ~Beats(o[s.off \cup {k}], o[s.off], 0)
OnlyHeld == \A i \in DOMAIN s.path : s.path[i] \in o[s.first \cup {s.path[j] : j \in 1..(i - 1)}].may
Foretold == s.phase = "done" => s.off \in Ends(o, s.first, 0)
=============================================================================
