---------------------------- MODULE DecommitTrace ----------------------------
(* Recorded runs of uopf and fairmax against Decommit.                       *)
(*   c        the case; units are rows of its table of generators            *)
(*   tab      what opf makes of switching off any set of the units with      *)
(*            minimum outputs: [off, ok, f, may, sure]                       *)
(*   all      the cost with every unit running (ok, f)                       *)
EXTENDS TraceRun, Network, Decommit
Opp == INSTANCE Cost

Running(c) == Rng(OnGen(c))
Sheddable(c) == {u \in Running(c) : DLt(0, c.gen[u][PMIN])}
Loads(c) == {u \in Running(c) : DLt(c.gen[u][PMIN], 0) /\ DEq(c.gen[u][PMAX], 0)}
Capacity(c) == LET on == OnBus(c) IN
    DSub(DSum([q \in DOMAIN on |-> c.bus[on[q]][PD]]), LET RECURSIVE S(_)
         S(T) == IF T = {} THEN 0 ELSE LET u == CHOOSE u \in T : TRUE IN DAdd(c.gen[u][PMIN], S(T \ {u})) IN S(Loads(c)))
Low(c) == [u \in DOMAIN c.gen |-> c.gen[u][PMIN]]
Dear(c) == [u \in DOMAIN c.gen |-> IF DLt(0, c.gen[u][PMIN]) THEN DDiv(Opp!CostAt(c.gencost[u], c.gen[u][PMIN]), c.gen[u][PMIN]) ELSE 0]
\* the sets of units that may be shed before the search
First(e) == LET T == Running(e.c) \ Loads(e.c) IN {T \ R : R \in ShedTo(TLCEval(Low(e.c)), TLCEval(Dear(e.c)), TLCEval(Capacity(e.c)), T)}
Off(e) == {u \in Running(e.c) : DEq(e.r.gen[u][GSTAT], 0)}
Entry(e, S) == LET k == CHOOSE k \in DOMAIN e.tab : Rng(e.tab[k].off) = S IN
    [ok |-> e.tab[k].ok, f |-> e.tab[k].f, may |-> Rng(e.tab[k].may), sure |-> Rng(e.tab[k].sure)]
Sets(e) == {Rng(e.tab[k].off) : k \in DOMAIN e.tab}
Oracle(e) == TLCEval([S \in Sets(e) |-> Entry(e, S)])
Eps(e) == DMul("1e-5", DAdd(1, DAbs(e.scale)))
Uopf(e) ==
    LET c == e.c
        o == Oracle(e)
        S == Off(e)
        first == TLCEval(First(e))
        known == S \in Sets(e)
        eps == Eps(e)
        start == {F \in first : F \subseteq S}
    IN Failing({
    <<"InputUntouched", e.untouched>>,
    <<"OnlyUnitsWithMinimumSwitchedOff", S \subseteq Sheddable(c) >>,
    <<"NothingSwitchedOn", \A u \in DOMAIN c.gen : DEq(c.gen[u][GSTAT], 0) => DEq(e.r.gen[u][GSTAT], 0)>>,
    <<"OffMeansZero", \A u \in S : DEq(e.r.gen[u][PG], 0) /\ DEq(e.r.gen[u][QG], 0)>>,
    <<"ShedFirst", start # {}>>,
    <<"ResultIsThatOfItsCommitment", known => /\ e.success = o[S].ok
                                              /\ e.success => DNear(e.f, o[S].f, eps)>>,
    <<"NotAboveAllRunning", (e.success /\ first = {{}} /\ e.all.ok) => DLe(e.f, DAdd(e.all.f, eps))>>,
    <<"NotAboveTheStart", start # {} => \E F \in start : (F \in Sets(e) /\ o[F].ok) => e.success /\ DLe(e.f, DAdd(o[F].f, eps))>>,
    <<"NoFurtherShutdownSaves", (known /\ e.success) => Better(o, S, eps) = {}>>,
    <<"BestOfEachStage", (e.exact /\ start # {} /\ known) => \E F \in start : S \in Ends(o, F, eps)>> })

Fair(e) == Failing({
    <<"LargestValue", \E k \in DOMAIN e.x : DSame(e.x[k], e.val) /\ \A j \in DOMAIN e.x : DLe(e.x[j], e.val)>>,
    <<"WhereItIs", \A k \in DOMAIN e.idx : DSame(e.x[e.idx[k] + 1], e.val)>>,
    <<"EveryTieHasAChance", \A j \in DOMAIN e.x : DSame(e.x[j], e.val) => j - 1 \in Rng(e.idx)>> })

Verdict(e) == CASE e.ev = "uopf" -> Uopf(e)
                [] e.ev = "fair" -> Fair(e)
                [] e.ev = "rate" -> Failing({<<"Solves", e.solved * 100 >= e.percent * e.tried>>})
                [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
