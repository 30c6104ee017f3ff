--------------------------- MODULE CaseFilesTrace ---------------------------
EXTENDS TraceRun, CaseFiles

RECURSIVE State(_, _)
State(steps, k) == IF k = 0 THEN Start ELSE Next1(State(steps, k - 1), steps[k])
\* the abstract values and the observed cases are in one-to-one correspondence, over the whole history
Hist(e) ==
    LET sts == TLCEval([k \in 0..Len(e.steps) |-> State(e.steps, k)])
        outs == [k \in DOMAIN e.steps |-> Outcome(sts[k - 1], e.steps[k])]
        sized == Len(e.obs) = Len(e.steps) /\ \A k \in DOMAIN e.steps : Len(e.obs[k].mem) = Len(sts[k].mem)
        pairs == UNION {{<<sts[k].mem[i], e.obs[k].mem[i]>> : i \in DOMAIN sts[k].mem} : k \in DOMAIN e.steps}
    IN Failing({
    <<"OutcomeCode", \A k \in DOMAIN e.steps : e.obs[k].code = outs[k].code>>,
    <<"SavedName", \A k \in DOMAIN e.steps : e.steps[k].op = "save" => e.obs[k].name = SavedName(e.steps[k].n)>>,
    <<"CasesHeldAndLoaded", sized /\ \A p \in pairs : \A q \in pairs : p[1] = q[1] <=> p[2] = q[2]>>,
    <<"FilesAsWritten", \A k \in DOMAIN e.steps : \A p \in Paths :
         /\ (e.obs[k].files[p] = "none") <=> sts[k].fs[p].is = "none"
         /\ (e.steps[k].op \notin {"save", "put"} /\ k > 1) => e.obs[k].files[p] = e.obs[k - 1].files[p]>>,
    <<"NothingElseInDirectory", \A k \in DOMAIN e.steps : e.obs[k].stray = 0>>})

Rows(t, F(_)) == [i \in DOMAIN t |-> F(t[i])]
Id(r) == r
Conv(e) ==
    LET old == Old(e.version, e.c.gen) /\ Len(e.c.gen[1]) < 20 IN Failing({
    <<"GenColumns", DSameMat(e.r.gen, IF old THEN Rows(e.c.gen, GenOf1) ELSE e.c.gen)>>,
    <<"BranchColumns", DSameMat(e.r.branch, IF old THEN Rows(e.c.branch, BranchOf1) ELSE e.c.branch)>>,
    <<"OtherTablesAsTheyWere", DSameMat(e.r.bus, e.c.bus) /\ DSameMat(e.r.gencost, e.c.gencost) /\ DSame(e.r.baseMVA, e.c.baseMVA)>>,
    <<"CurrentVersion", e.r.version = "2">>,
    <<"SourceUntouched", e.untouched>>})

Round(e) == Failing({
    <<"SameCaseBack", Differs(e.text, e.c, e.d) = {}>>,
    <<"SameExtensionData", \A x \in DOMAIN e.extra : IF e.extra[x].t = "vector" THEN VectorKept(e.text, e.extra[x].a, e.extra[x].b)
                             ELSE Len(e.extra[x].a) = Len(e.extra[x].b) /\ \A i \in DOMAIN e.extra[x].a : VectorKept(e.text, e.extra[x].a[i], e.extra[x].b[i])>>,
    <<"SavedCaseUntouched", e.untouched>>,
    <<"NameWithExtension", e.name = e.wanted>>})

Verdict(e) == CASE e.ev = "history" -> Hist(e)
                [] e.ev = "convert" -> Conv(e)
                [] e.ev = "roundtrip" -> Round(e)
                [] e.ev = "copy" -> Failing({<<"SameData", e.same>>, <<"NothingShared", e.shared = 0>>, <<"RealNumbers", e.real>>})
                [] e.ev = "code" -> Failing({<<"DocumentedCode", e.code = e.wanted>>})
                [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
