----------------------------- MODULE ReportTrace -----------------------------
EXTENDS TraceRun, Report

Rep(e) ==
    LET o == e.o r == Shown(e.r, o.dc) t == e.t
        plim == Lim(o, o.OUT_PG_LIM) qlim == Lim(o, o.OUT_QG_LIM)
        at == AreaTables(r, o)
    IN IF o.OUT_ALL = 0 THEN Failing({<<"NothingPrintedWhenOff", e.empty>>, <<"ResultUnchanged", e.same>>}) ELSE Failing({
    <<"SectionsAsSelected", t.titles = Titles(r, o)>>,
    <<"NothingElseInTheReport", t.rest = <<>>>>,
    <<"ResultUnchanged", e.same>>,
    <<"Headed", AnyOutput(o) => t.converged = e.r.success /\ Shows(t.et, e.r.et, 2)>>,
    <<"Objective", IF AnyOutput(o) /\ r.opf THEN Shows(t.f, e.r.f, 2) ELSE t.f = "-">>,
    <<"SystemSummary", Has(t, "sys") => SameRows(t.sys, Sys(r, o))>>,
    <<"Extremes", Has(t, "ext") => Extremes(t.ext, r, o)>>,
    <<"AreaCounts", Has(t, "area") => Len(t.area) = 4 /\ SameRows(t.area[1], at[1])>>,
    <<"AreaGeneration", Has(t, "area") => Len(t.area) = 4 /\ SameRows(t.area[2], at[2])>>,
    <<"AreaLoads", Has(t, "area") => Len(t.area) = 4 /\ SameRows(t.area[3], at[3])>>,
    <<"AreaLossesAndExport", Has(t, "area") => Len(t.area) = 4 /\ SameRows(t.area[4], at[4])>>,
    <<"Units", Has(t, "gen") => SameRows(t.gen, Units(r, OnGens(r), FALSE))>>,
    <<"DispatchableLoads", Has(t, "disp") => SameRows(t.disp, Units(r, OnLoads(r), TRUE))>>,
    <<"Buses", Has(t, "bus") => SameRows(t.bus, Buses(r))>>,
    <<"BusMarks", Has(t, "bus") => LET s == Stars(r) IN \A k \in DOMAIN s : k \in DOMAIN t.stars /\ {t.stars[k][j] : j \in DOMAIN t.stars[k]} = s[k]>>,
    <<"Branches", Has(t, "branch") => SameRows(t.branch, Branches(r, o))>>,
    <<"VoltageLimits", Has(t, "vlim") => SameRows(t.vlim, VLim(r, o))>>,
    <<"UnitPLimits", Has(t, "gplim") => SameRows(t.gplim, GLim(r, o, OnGens(r), PCols, plim))>>,
    <<"UnitQLimits", Has(t, "gqlim") => SameRows(t.gqlim, GLim(r, o, OnGens(r), QCols, qlim))>>,
    <<"LoadPLimits", Has(t, "lplim") => SameRows(t.lplim, GLim(r, o, OnLoads(r), PCols, plim))>>,
    <<"LoadQLimits", Has(t, "lqlim") => SameRows(t.lqlim, GLim(r, o, OnLoads(r), QCols, qlim))>>,
    <<"FlowLimits", Has(t, "flim") => FLimOk(t.flim, r, o)>>})

Verdict(e) == CASE e.ev = "report" -> Rep(e)
                [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
