---------------------------- MODULE IndexingTrace ----------------------------
(* Conformance of the real conversion routines with Indexing.               *)
EXTENDS TraceRun, Indexing

ShapeOk(t, n, w) == Len(t) = n /\ \A k \in DOMAIN t : Len(t[k]) = w
Width(t) == IF t = <<>> THEN 0 ELSE Len(t[1])

\* The generator order actually used, read off the generators themselves:
\* column 7 of every generator row is distinct and never rewritten.
ObservedPerm(c, ig) ==
    LET on == OnGen(c) IN
    [k \in DOMAIN ig |-> Max0({j \in DOMAIN on : c.gen[on[j]][7] = ig[k][7]})]

Kinds(dc) == IF dc THEN <<"bus", "gen">> ELSE <<"bus", "bus", "gen", "gen">>

\* ext2int
ToInternal(e) ==
    LET c == e.c
        i == e.i
        p == ObservedPerm(c, i.gen)
        sortedOk == Len(i.gen) = Len(OnGen(c)) /\ IsGenOrder(c, p)
    IN Failing({
      <<"BusTable", i.bus = IntBus(c)>>,
      <<"BranchTable", i.branch = IntBranch(c)>>,
      <<"GenSortedByBus", sortedOk>>,
      <<"GenTable", sortedOk => i.gen = IntGen(c, p)>>,
      <<"GenCostRows", (sortedOk /\ Has(c, "gencost")) =>
          i.gencost = E2I(c, p, IF Len(c.gencost) = 2 * Len(c.gen) THEN <<"gen", "gen">> ELSE <<"gen">>, c.gencost)>>,
      <<"AreaTable", Has(c, "areas") => i.areas = IntAreas(c)>>,
      <<"ConstraintColumns", (sortedOk /\ Has(c, "A")) =>
          i.A = [r \in DOMAIN c.A |-> E2I(c, p, Kinds(e.dc), c.A[r])]>>,
      <<"CostColumns", (sortedOk /\ Has(c, "N")) =>
          i.N = [r \in DOMAIN c.N |-> E2I(c, p, Kinds(e.dc), c.N[r])]>>,
      <<"BusMap", /\ e.o.busi2e = [k \in 1..Len(OnBus(c)) |-> Ext(c, k - 1)]
                  /\ \A k \in DOMAIN e.o.busi2e : e.o.buse2i[e.o.busi2e[k] + 1] = k - 1>>,
      <<"GenMap", sortedOk => /\ e.o.gene2i = [k \in DOMAIN p |-> p[k] - 1]
                              /\ \A k \in DOMAIN p : e.o.geni2e[p[k]] = k - 1>>,
      <<"StatusLists", /\ e.o.buson = [k \in DOMAIN OnBus(c) |-> OnBus(c)[k] - 1]
                       /\ e.o.genon = [k \in DOMAIN OnGen(c) |-> OnGen(c)[k] - 1]
                       /\ e.o.branchon = [k \in DOMAIN OnBranch(c) |-> OnBranch(c)[k] - 1]
                       /\ Rng(e.o.busoff) = (0..(Len(c.bus) - 1)) \ Rng(e.o.buson)
                       /\ Rng(e.o.genoff) = (0..(Len(c.gen) - 1)) \ Rng(e.o.genon)
                       /\ Rng(e.o.branchoff) = (0..(Len(c.branch) - 1)) \ Rng(e.o.branchon)>>,
      <<"StateIsInternal", e.o.state = "i">>,
      <<"InputUntouched", e.untouched>>,
      <<"InternalIsFixedPoint", e.idem>> })

\* int2ext of internal tables e.i (with results written into them)
ToExternal(e) ==
    LET c == e.c
        i == e.i
        p == ObservedPerm(c, i.gen)
        x == e.x
    IN Failing({
      <<"BusRows", x.bus = ExtBus(c, i.bus)>>,
      <<"BranchRows", x.branch = ExtBranch(c, i.branch)>>,
      <<"GenRows", x.gen = ExtGen(c, p, i.gen)>>,
      <<"AreaRows", Has(c, "areas") => x.areas = ExtAreas(c, i.areas)>>,
      <<"GenCostRestored", Has(c, "gencost") => x.gencost = c.gencost>>,
      <<"ConstraintsRestored", Has(c, "A") => x.A = c.A>>,
      <<"CostsRestored", Has(c, "N") => x.N = c.N>>,
      <<"InternalCopyKept", e.intcopy>>,
      <<"StateIsExternal", e.state = "e">>,
      <<"InputUntouched", e.untouched>> })

\* a whole round trip without results is the identity, on every round
RoundTrip(e) == Failing({
      <<"BusSame", e.x.bus = e.c.bus>>, <<"GenSame", e.x.gen = e.c.gen>>, <<"BranchSame", e.x.branch = e.c.branch>>,
      <<"GenCostSame", Has(e.c, "gencost") => e.x.gencost = e.c.gencost>>,
      <<"AreasSame", Has(e.c, "areas") => e.x.areas = e.c.areas>>,
      <<"ASame", Has(e.c, "A") => e.x.A = e.c.A>>, <<"NSame", Has(e.c, "N") => e.x.N = e.c.N>> })

\* arbitrary data: e.val ordered by e.kinds along e.dim, internal image e.got,
\* then e.mod (internal) put back onto e.old giving e.back
Flip(m) == IF m = <<>> THEN <<>> ELSE [j \in 1..Len(m[1]) |-> [r \in DOMAIN m |-> m[r][j]]]
Field(e) ==
    LET c == e.c
        p == [k \in DOMAIN e.perm |-> e.perm[k]]
        orient(m) == IF e.dim = 1 THEN Flip(m) ELSE m
        idx == BlockIdx(c, p, e.kinds, 0, Len(orient(e.val)))
    IN Failing({
      <<"ToInternalOrder", e.okfwd /\ orient(e.got) = E2I(c, p, e.kinds, orient(e.val))>>,
      <<"BackToExternalOrder", e.okback /\ orient(e.back) = I2E(c, p, e.kinds, orient(e.mod), orient(e.old))>>,
      <<"OutOfServiceKeepsOldData", e.okback =>
            \A q \in DOMAIN orient(e.old) : q \notin Rng(idx) => orient(e.back)[q] = orient(e.old)[q]>>,
      <<"OriginalSaved", e.saved>>,
      <<"InputUntouched", e.untouched>> })

Raised(e) == {"Raised"}

Verdict(e) == CASE e.ev = "toint" -> ToInternal(e)
                [] e.ev = "toext" -> ToExternal(e)
                [] e.ev = "round" -> RoundTrip(e)
                [] e.ev = "field" -> Field(e)
                [] e.ev = "raised" -> Raised(e)

TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
