---------------------------- MODULE CallingTrace ----------------------------
EXTENDS TraceRun, Calling, Dec

Set(s) == {s[i] : i \in DOMAIN s}
Given(e) == [r \in Set(Form(e.n - First(e.source))) |-> e.call[r]]
\* limits and weights of no matrix are nobody's concern
Owner(r) == CASE r \in {"l", "u"} -> "A" [] r \in {"Cw", "H", "fparm"} -> "N" [] OTHER -> r
Matters(e, r) == Owner(r) = r \/ Posed(Given(e), e.held, Owner(r)) # ""
Args(e) == IF ~IsCall(e.source, e.n) THEN Failing({<<"NotACall", e.rejected>>}) ELSE Failing({
    <<"AcceptedIffWellPosed", e.rejected <=> ~WellPosed(Given(e), e.held)>>,
    <<"ProblemPosed", ~e.rejected => \A r \in InCase : Matters(e, r) =>
            e.got[r] = Posed(Given(e), e.held, r)>>,
    <<"OptionsGivenOrDefault", ~e.rejected => e.got["ppopt"] = (IF Says(Given(e), "ppopt") THEN Given(e)["ppopt"] ELSE e.defaults)>>,
    <<"TablesOfTheCase", ~e.rejected => e.tables = e.wanted>>,
    <<"RestOfTheCaseKept", ~e.rejected => e.kept = e.rest>>,
    <<"CallersDataUntouched", e.untouched>>})

Shape(e) == Failing({
    <<"MalformedRejected", ~Consistent(e.d) => e.rejected>>,
    <<"WellFormedAccepted", Consistent(e.d) => ~e.rejected>>})

Tol == "1e-9"
Same(e) == Failing({
    <<"Answered", e.rejected = e.rejected0>>,
    <<"SameOutcome", ~e.rejected => e.success = e.success0>>,
    <<"SameObjective", ~e.rejected => DClose(e.f, e.f0, Tol)>>,
    <<"SameSolution", ~e.rejected => DCloseSeq(e.x, e.x0, Tol)>>,
    <<"SameTables", ~e.rejected => \A t \in DOMAIN e.r : Len(e.r[t]) = Len(e.r0[t]) /\ \A i \in DOMAIN e.r[t] : DCloseSeq(e.r[t][i], e.r0[t][i], Tol)>>})

Verdict(e) == CASE e.ev = "args" -> Args(e)
                [] e.ev = "shape" -> Shape(e)
                [] e.ev = "same" -> Same(e)
                [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
