------------------------------ MODULE DcLines ------------------------------
(* DC lines: controlled flows between two buses.  A line in service becomes  *)
(* two units behind those of the case - one at the "from" bus that draws the *)
(* flow, one at the "to" bus that delivers it - and what these are found to  *)
(* do comes back as the row of the line; the case's own units come back as   *)
(* they were listed.                                                         *)
EXTENDS Integers, Sequences, FiniteSets

DcRng(s) == {s[k] : k \in DOMAIN s}
\* d: [lines: rows [on, f, t], dead: buses out, units: the case's own]
RECURSIVE DcLive(_, _)
DcLive(d, k) == IF k = 0 THEN <<>> ELSE DcLive(d, k - 1) \o
    (IF d.lines[k].on /\ d.lines[k].f \notin d.dead /\ d.lines[k].t \notin d.dead THEN <<k>> ELSE <<>>)
LiveLines(d) == DcLive(d, Len(d.lines))
DcGiven(d) == [stage |-> "given", units |-> d.units, rows |-> [k \in DOMAIN d.lines |-> <<>>], out |-> <<>>]
DcInward(s, d) == LET w == LiveLines(d) IN
    [s EXCEPT !.stage = "internal", !.units = s.units \o [k \in DOMAIN w |-> <<"from", w[k], d.lines[w[k]].f>>] \o [k \in DOMAIN w |-> <<"to", w[k], d.lines[w[k]].t>>]]
DcSolved(s, d) == [s EXCEPT !.stage = "solved", !.out = s.units]
DcOutward(s, d) == LET w == LiveLines(d)  n == Len(s.units) - 2 * Len(w) IN
    [s EXCEPT !.stage = "given", !.units = SubSeq(s.units, 1, n),
              !.rows = [k \in DOMAIN d.lines |-> IF k \notin DcRng(w) THEN <<>>
                        ELSE LET j == CHOOSE q \in DOMAIN w : w[q] = k IN <<s.out[n + j], s.out[n + Len(w) + j]>>]]

-----------------------------------------------------------------------------
(* limits: those that are negative hold for the flow delivered, the others   *)
(* for the flow drawn; on the two units a (draws: output -flow) and b        *)
NoLo == -1000   NoUp == 1000
LimA(lo, up) == [lo |-> IF up >= 0 THEN -up ELSE NoLo, up |-> IF lo >= 0 THEN -lo ELSE NoUp]
LimB(lo, up) == [lo |-> IF lo < 0 THEN lo ELSE NoLo, up |-> IF up < 0 THEN up ELSE NoUp]
Drawn2(lo, up, draw, give) == /\ -draw >= LimA(lo, up).lo /\ -draw <= LimA(lo, up).up
                              /\ give >= LimB(lo, up).lo /\ give <= LimB(lo, up).up
AllowedFlow(lo, up, draw, give) == (IF lo >= 0 THEN draw ELSE give) >= lo /\ (IF up >= 0 THEN draw ELSE give) <= up

(* the cost of a flow is that of the unit that draws it, mirrored *)
RECURSIVE PolyOf(_, _)
PolyOf(co, x) == IF co = <<>> THEN 0 ELSE PolyOf(SubSeq(co, 1, Len(co) - 1), x) * x + co[Len(co)]
MirrorPoly(co) == [k \in DOMAIN co |-> IF ((Len(co) - k) \div 2) * 2 = Len(co) - k THEN co[k] ELSE -co[k]]
\* points <<x, y>>
MirrorPwl(p) == [k \in DOMAIN p |-> <<-p[Len(p) + 1 - k][1], p[Len(p) + 1 - k][2]>>]
OnPwl(p, x, y) == \E k \in 1..(Len(p) - 1) : /\ p[k][1] <= x /\ x <= p[k + 1][1]
                                             /\ (y - p[k][2]) * (p[k + 1][1] - p[k][1]) = (x - p[k][1]) * (p[k + 1][2] - p[k][2])
=============================================================================
