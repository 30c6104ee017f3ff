----------------------------- MODULE DcLinesMC -----------------------------
EXTENDS DcLines, TLC, Json
CONSTANTS NL, Emit
VARIABLES s, d
vars == <<s, d>>
Buses == 1..3
\* limits and costs by kind, instantiated by the harness
Kinds == {"forward", "from zero", "both ways", "reverse"}
Lines == {[on |-> on, f |-> ft[1], t |-> ft[2], lim |-> k] : on \in BOOLEAN, ft \in {<<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 2>>}, k \in Kinds}
Data == [lines : UNION {[1..n -> Lines] : n \in 1..NL}, dead : {{}, {3}}, units : {<<"u1">>, <<"u1", "u2">>}]
Init == \E x \in Data : /\ d = x /\ s = DcGiven(x)
                        /\ (Emit /\ x.units = <<"u1">>) => PrintT(<<"EMIT", ToJson([lines |-> x.lines, dead |-> x.dead])>>)
Next == \/ s.stage = "given" /\ s.out = <<>> /\ s' = DcInward(s, d) /\ UNCHANGED d
        \/ s.stage = "internal" /\ s' = DcSolved(s, d) /\ UNCHANGED d
        \/ s.stage = "solved" /\ s' = DcOutward(s, d) /\ UNCHANGED d
Spec == Init /\ [][Next]_vars
Back == (s.stage = "given" /\ s.out # <<>>) =>
    /\ s.units = d.units
    /\ \A k \in DOMAIN d.lines : LET x == d.lines[k] IN
         s.rows[k] = IF x.on /\ x.f \notin d.dead /\ x.t \notin d.dead THEN <<<<"from", k, x.f>>, <<"to", k, x.t>>>> ELSE <<>>
OnLiveBuses == s.stage = "internal" => \A k \in DOMAIN s.units : k > Len(d.units) => s.units[k][3] \notin d.dead

(* facts about limits and costs *)
R == -4..4
ASSUME Limits == \A lo \in R, up \in R, draw \in R, give \in R : Drawn2(lo, up, draw, give) <=> AllowedFlow(lo, up, draw, give)
Co == UNION {[1..n -> -2..2] : n \in 1..4}
ASSUME Polys == \A co \in Co : \A x \in -3..3 : PolyOf(MirrorPoly(co), -x) = PolyOf(co, x)
Pts == {<<<<a, p>>, <<b, q>>, <<c, r>>>> : a \in {-3, -1, 0}, b \in {0, 1, 2}, c \in {3, 4}, p \in {0, 5}, q \in {1, 6}, r \in {2, 12}}
ASSUME Pwls == \A p \in {p \in Pts : p[1][1] < p[2][1]} : \A x \in R : \A y \in 0..12 : OnPwl(MirrorPwl(p), -x, y) <=> OnPwl(p, x, y)
=============================================================================
