----------------------------- MODULE EntryTrace -----------------------------
(* Recorded sessions and command lines against Entry.                        *)
EXTENDS TraceRun, Entry

RECURSIVE State(_, _)
State(steps, k) == IF k = 0 THEN Start ELSE Do(State(steps, k - 1), steps[k])
\* the case of call k: one given, or the solved one of the call that wrote the file
Case(sts, steps, k) == IF steps[k].src \in DOMAIN Start.sav THEN "solved " \o ToString(sts[k - 1].sav[steps[k].src]) ELSE steps[k].case
SavedOf(own, n) == IF n = "s.mat" THEN own.mat ELSE own.py
Session(e) ==
    LET sts == TLCEval([k \in 0..Len(e.steps) |-> State(e.steps, k)])
        N == DOMAIN e.steps
        went == {k \in N : ~Refused(e.steps[k])}
        posed == [k \in N |-> [Problem(e.steps[k]) EXCEPT !.case = Case(sts, e.steps, k)]]
        reported == {k \in went : ~e.obs[k].raised}
    IN Failing({
    <<"NoSuchAlgorithmIsRefused", \A k \in N : Refused(e.steps[k]) => e.obs[k].raised>>,
    <<"Raised", \A k \in went : ~e.obs[k].raised>>,
    <<"FormOfResult", \A k \in reported : e.obs[k].form = (IF Task(e.steps[k].f) = "pf" THEN "pair" ELSE "dict")>>,
    <<"SuccessAsSolved", \A k \in reported : e.obs[k].flags /\ (e.obs[k].ok <=> Solvable(e.steps[k]))>>,
    <<"SameProblemSameAnswer", \A j, k \in reported : posed[j] = posed[k] => e.obs[j].answer = e.obs[k].answer>>,
    <<"ReportToTerminal", \A k \in N : LET here == k \in went /\ e.steps[k].rep = "" IN
         e.obs[k].raised \/ (e.obs[k].out = (IF here THEN e.obs[k].own.report ELSE "") /\ (e.obs[k].more => e.steps[k].o = "none"))>>,
    <<"ReportsInFiles", \A k \in N : \A n \in {"r1", "r2"} :
         LET want == sts[k].rep[n]  filled == {i \in DOMAIN want : e.obs[want[i]].own.report # ""} IN
         LET RECURSIVE Keep(_)
             Keep(i) == IF i = 0 THEN <<>> ELSE Keep(i - 1) \o (IF i \in filled THEN <<e.obs[want[i]].own.report>> ELSE <<>>)
         IN e.obs[k].rep[n] = Keep(Len(want))>>,
    <<"SolvedCaseSaved", \A k \in N : \A n \in DOMAIN Start.sav :
         e.obs[k].sav[n] = (IF sts[k].sav[n] = 0 THEN "" ELSE SavedOf(e.obs[sts[k].sav[n]].own, n))>>,
    <<"PlaceThatCannotBeWritten", \A k \in reported : (e.steps[k].rep = "bad" => e.obs[k].err)>>,
    <<"NothingElseWritten", \A k \in N : e.obs[k].stray = 0>>,
    <<"ArgumentsUnchanged", \A k \in N : e.obs[k].kept>>})

Line(e) ==
    LET bad == Malformed(e.cmd, e.args)
        m == Meaning(e.cmd, e.args)
        ok == ~bad /\ ~e.ref.raised
    IN Failing({
    <<"HarnessReadsLines", e.planned <=> ~bad>>,
    <<"HarnessReadsLines", bad \/ (e.plan.f = m.f /\ e.plan.case = m.case /\ e.plan.rep = m.rep /\ e.plan.sav = m.sav /\
                                    {<<x, m.opts[x]>> : x \in DOMAIN m.opts} = {<<x, e.plan.opts[x]>> : x \in DOMAIN e.plan.opts})>>,
    <<"ExitStatus", IF bad \/ ~e.ref.raised THEN e.obs.code = ToString(Code(bad, e.ref.ok)) ELSE e.obs.code # "0">>,
    <<"LineReportToTerminal", ok => (m.rep = "" => e.obs.out = e.ref.report) /\ (m.rep # "" => e.obs.out = "")>>,
    <<"LineReportInFile", e.obs.kept /\ (ok /\ m.rep = "r1" => e.obs.rep = (IF e.ref.report = "" THEN <<>> ELSE <<e.ref.report>>)) /\ (~ok => e.obs.rep = <<>>)>>,
    <<"LineSolvedCase", ok => \A n \in DOMAIN Start.sav : e.obs.sav[n] = e.ref.sav[n]>>,
    <<"NothingElseWritten", e.obs.stray = 0 /\ (~ok => \A n \in DOMAIN Start.sav : e.obs.sav[n] = "")>>})

Default(e) == Failing({<<"NineBusCase", e.same>>, <<"ReportToTerminal", e.printed>>, <<"FormOfResult", e.form = (IF e.f \in {"runpf", "rundcpf", "runcpf"} THEN "pair" ELSE "dict")>>})

Verdict(e) == CASE e.ev = "session" -> Session(e) [] e.ev = "line" -> Line(e) [] e.ev = "default" -> Default(e) [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
