--------------------------- MODULE ContinuationMC ---------------------------
(* A curve that rises to the nose and falls back to lam = 0 (and would go on  *)
(* below it).  p is a place on the curve.  An arc step of length d moves on   *)
(* by at most d places, a natural step changes lam by exactly d or fails;     *)
(* the corrector may always fail.                                             *)
EXTENDS Continuation, TLC, Json
CONSTANTS Nose, Big, Emit
VARIABLES s, cf
vars == <<s, cf>>
Lam(p) == IF p <= Nose THEN p ELSE 2 * Nose - p
Places == 0..(2 * Nose + Big)
Stops == {[kind |-> "nose", at |-> 0], [kind |-> "full", at |-> 0]} \cup {[kind |-> "at", at |-> a] : a \in 0..(Nose + 1)}
Configs == [stop : Stops, natural : BOOLEAN, adapt : BOOLEAN, step : 1..Big]
Init == \E c \in Configs : /\ cf = c
                           /\ s = [seen |-> <<0>>, step |-> c.step, natural |-> c.natural, adapt |-> c.adapt, status |-> "go"]
                           /\ Emit => PrintT(<<"EMIT", ToJson(c)>>)
Here == s.seen[Len(s.seen)]
Before == IF Len(s.seen) > 1 THEN s.seen[Len(s.seen) - 1] ELSE Here
Fail == s.status = "go" /\ s' = [s EXCEPT !.status = "failed"] /\ UNCHANGED cf
CutHere == LET c == Cut(cf.stop, Lam(Here), Lam(Before), s.step, s.natural) IN [c EXCEPT !.step = DInt(@)]
Reached(c) == IF c.natural
    THEN {p \in Places : p >= Here /\ (p = Here <=> c.step = 0)
                         /\ Lam(p) = Lam(Here) + (IF Lam(Here) >= Lam(Before) THEN c.step ELSE -c.step)
                         /\ (Lam(Here) >= Lam(Before) => p <= Nose \/ Here > Nose)}
    ELSE {p \in Places : p > Here /\ p <= Here + c.step}
Step == /\ s.status = "go"
        /\ LET c == CutHere
           IN \E p \in Reached(c) :
              LET over == Over(cf.stop, Lam(p), Lam(Here), 1)
              IN \E d \in (IF s.adapt /\ ~c.cut /\ ~over THEN 1..Big ELSE {c.step}) :
                    s' = [seen |-> Append(s.seen, p), step |-> d, natural |-> c.natural, adapt |-> s.adapt /\ ~c.cut,
                          status |-> IF over THEN "done" ELSE "go"]
        /\ UNCHANGED cf
Next == Step \/ Fail
Spec == Init /\ [][Next]_vars
\* the trace only goes on
Forward == \A k \in 1..(Len(s.seen) - 1) : s.seen[k] < s.seen[k + 1] \/ (k = Len(s.seen) - 1 /\ s.status = "done")
\* what "done" means
Truthful == s.status = "done" =>
    CASE cf.stop.kind = "nose" -> Here > Nose /\ Before <= Here /\ \A k \in 1..(Len(s.seen) - 2) : s.seen[k] < Nose
      [] cf.stop.kind = "full" -> Here = 2 * Nose
      [] cf.stop.kind = "at" -> Lam(Here) = cf.stop.at \/ Here > Nose
\* the loading asked for is never passed, and given up only beyond the nose
NeverPast == cf.stop.kind = "at" => \A k \in DOMAIN s.seen : Lam(s.seen[k]) <= cf.stop.at
\* a loading below the nose is always within reach while the corrector works
Able == (s.status = "go" /\ cf.stop.kind = "at" /\ cf.stop.at < Nose /\ Here < Nose) =>
            LET c == CutHere IN c.step >= 0 /\ Reached(c) # {}
=============================================================================
