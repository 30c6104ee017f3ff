-------------------------- MODULE DerivativesTrace --------------------------
(* Conformance of dSbus_dV, dSbr_dV, dIbr_dV, dAbr_dV with Derivatives.      *)
EXTENDS TraceRun, Derivatives
Tol == "1e-9"
ShapeOk(m, r, n) == Len(m) = r /\ \A k \in DOMAIN m : Len(m[k]) = n
Same(m, r, n, spec(_, _)) == ShapeOk(m, r, n) /\ \A i \in 1..r : \A k \in 1..n : CClose(m[i][k], spec(i, k), Tol)
SameRe(m, r, n, spec(_, _)) == ShapeOk(m, r, n) /\ \A i \in 1..r : \A k \in 1..n : DClose(m[i][k], spec(i, k)[1], Tol)
DSbus(e) == LET c == e.c  n == Len(c.bus)  y == YbusOf(c) IN Failing({
    <<"InjectionByMagnitude", Same(e.dVm, n, n, LAMBDA i, k : DInj(c, y, e.v, i, k, FALSE))>>,
    <<"InjectionByAngle", Same(e.dVa, n, n, LAMBDA i, k : DInj(c, y, e.v, i, k, TRUE))>>,
    <<"InputUntouched", e.untouched>> })
Six(e) == LET c == e.c  n == Len(c.bus)  r == Len(c.branch)
              d(b, k, ang, from) == IF e.what = "S" THEN DBrS(c, e.v, b, k, ang, from) ELSE DBrI(c, e.v, b, k, ang, from)
              q(b, from) == IF e.what = "S" THEN BrS(c, b, e.v, from) ELSE BrI(c, b, e.v, from) IN Failing({
    <<"FromByAngle", Same(e.fa, r, n, LAMBDA b, k : d(b, k, TRUE, TRUE))>>,
    <<"FromByMagnitude", Same(e.fm, r, n, LAMBDA b, k : d(b, k, FALSE, TRUE))>>,
    <<"ToByAngle", Same(e.ta, r, n, LAMBDA b, k : d(b, k, TRUE, FALSE))>>,
    <<"ToByMagnitude", Same(e.tm, r, n, LAMBDA b, k : d(b, k, FALSE, FALSE))>>,
    <<"FromQuantity", Len(e.f) = r /\ \A b \in 1..r : CClose(e.f[b], q(b, TRUE), Tol)>>,
    <<"ToQuantity", Len(e.t) = r /\ \A b \in 1..r : CClose(e.t[b], q(b, FALSE), Tol)>>,
    <<"InputUntouched", e.untouched>> })
DA(e) == LET c == e.c  n == Len(c.bus)  r == Len(c.branch) IN Failing({
    <<"SquaredFromByAngle", SameRe(e.fa, r, n, LAMBDA b, k : DBrA(c, e.v, b, k, TRUE, TRUE, e.what))>>,
    <<"SquaredFromByMagnitude", SameRe(e.fm, r, n, LAMBDA b, k : DBrA(c, e.v, b, k, FALSE, TRUE, e.what))>>,
    <<"SquaredToByAngle", SameRe(e.ta, r, n, LAMBDA b, k : DBrA(c, e.v, b, k, TRUE, FALSE, e.what))>>,
    <<"SquaredToByMagnitude", SameRe(e.tm, r, n, LAMBDA b, k : DBrA(c, e.v, b, k, FALSE, FALSE, e.what))>>,
    <<"InputUntouched", e.untouched>> })
Verdict(e) == CASE e.ev = "dsbus" -> DSbus(e) [] e.ev = "dbr" -> Six(e) [] e.ev = "dabr" -> DA(e)
                [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
