---------------------------- MODULE RegistryTrace ----------------------------
EXTENDS TraceRun, Registry

\* registry before step k of a history
RECURSIVE Before(_, _)
Before(steps, k) == IF k = 1 THEN Empty ELSE Apply(Before(steps, k - 1), steps[k - 1])

\* calls: <<function, argument, input, output>>, extras: TRUE where the further arguments arrived
Chained(r, s, c) ==
    LET q == Runs(r, s.stage) IN
    /\ Len(c.calls) = Len(q)
    /\ \A k \in DOMAIN q : /\ c.calls[k].f = q[k].f /\ c.calls[k].args = q[k].args /\ c.calls[k].extras
                           /\ c.calls[k].x = (IF k = 1 THEN c.x ELSE c.calls[k - 1].y)
    /\ c.y = (IF q = <<>> THEN c.x ELSE c.calls[Len(q)].y)

StepOk(r, s, o) == LET after == Apply(r, s) IN Failing({
    <<"RegistryAfter_" \o s.op, \A t \in StageSet : o.after[t] = after[t]>>,
    <<"NothingElseRegistered", o.other = 0>>,
    <<"RefusalReported", Reported(r, s) => o.reported>>,
    <<"HonouredQuietly", ~Reported(r, s) => ~o.raised>>,
    <<"ExactlyTheRegisteredCallbacksInOrder", s.op = "run" => Chained(r, s, o)>>})

\* a whole run: what is called, at which stage, with which numbering, and whose result is used
\* solved "pf" or "opf"; saved: the solved case goes to a Python file; printed: the report is written
Expected(r, e) == LET part(s, on) == IF on THEN [k \in DOMAIN r[s] |-> <<s, r[s][k].f, r[s][k].args>>] ELSE <<>> IN
    part("ext2int", TRUE) \o part("formulation", e.kind = "opf") \o part("int2ext", TRUE)
    \o part("printpf", e.printed) \o part("savecase", e.saved)
Numbering(stage) == CASE stage \in {"ext2int", "int2ext"} -> "i" [] stage \in {"printpf", "savecase"} -> "e" [] OTHER -> "om"
Marks(r, s) == [k \in DOMAIN r[s] |-> r[s][k].f]
Whole(e) == LET x == Expected(e.reg, e) IN Failing({
    <<"EveryCallbackOnceInOrder", Len(e.calls) = Len(x) /\ \A k \in DOMAIN x : k \in DOMAIN e.calls => <<e.calls[k].stage, e.calls[k].f, e.calls[k].args>> = x[k]>>,
    <<"CalledInTheNumberingOfItsStage", \A k \in DOMAIN e.calls : e.calls[k].state = Numbering(e.calls[k].stage)>>,
    \* a callback sees the results of those before it, and the run uses the last result
    <<"EachSeesThePreviousResult", \A k \in DOMAIN e.calls : LET c == e.calls[k] IN c.stage \in {"ext2int", "formulation", "int2ext"} =>
        c.seen = [j \in 1..(Cardinality({i \in 1..k : e.calls[i].stage = c.stage}) - 1) |-> Marks(e.reg, c.stage)[j]]>>,
    <<"TheLastResultIsUsed", e.final.ext2int = Marks(e.reg, "ext2int") /\ e.final.int2ext = Marks(e.reg, "int2ext")
        /\ (e.kind = "opf" => e.final.formulation = Marks(e.reg, "formulation"))>>,
    <<"ReportCallbackGetsTheOptions", \A k \in DOMAIN e.calls : e.calls[k].stage = "printpf" => e.calls[k].lim = (IF e.kind = "opf" THEN e.lim ELSE 0)>>,
    <<"WritesGoToTheOpenFile", \A k \in DOMAIN e.calls : e.calls[k].stage \in {"printpf", "savecase"} => e.calls[k].wrote>>})

Verdict(e) ==
    CASE e.ev = "history" -> UNION {StepOk(Before(e.steps, k), e.steps[k], e.obs[k]) : k \in DOMAIN e.steps}
      [] e.ev = "whole" -> Whole(e)
      [] e.ev = "extension" -> Failing({<<"OneCallbackPerStage", \A s \in StageSet : e.counts[s] = 1>>})
      [] e.ev = "missing" -> Failing({<<"MissingDataReported", e.reported>>})
      [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
