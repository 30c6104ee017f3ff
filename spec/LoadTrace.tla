------------------------------ MODULE LoadTrace ------------------------------
EXTENDS TraceRun, Load
Tol == "1e-11"
Highest(z) == LET m == CHOOSE i \in DOMAIN z : \A j \in DOMAIN z : z[j] <= z[i] IN z[m]
\* a zone may be named after the areas, after all, or be given per bus
AreaOf(e) == [i \in DOMAIN e.bus |-> DInt(e.bus[i][Area])]
Sums(e) ==
    LET zone == TLCEval(IF e.by = "areas" THEN AreaOf(e) ELSE IF e.by = "all" THEN [i \in DOMAIN e.bus |-> 1] ELSE e.zone)
        which == IF e.which = "default" THEN "B" ELSE e.which
    IN IF which \notin {"F", "D", "B"} THEN Failing({<<"InvalidRejected", e.rejected>>})
       ELSE Failing({
    <<"Accepted", ~e.rejected>>,
    <<"ZoneCount", ~e.rejected => Len(e.p) = Highest(zone) /\ Len(e.q) = Highest(zone)>>,
    <<"RealPower", ~e.rejected => \A k \in DOMAIN e.p : DClose(e.p[k], TotalP(e.bus, e.gen, zone, k, which), Tol)>>,
    <<"ReactivePower", ~e.rejected => \A k \in DOMAIN e.q : DClose(e.q[k], TotalQ(e.bus, e.gen, zone, k, which), Tol)>>,
    <<"ArgumentsUntouched", e.untouched>>})

Scaled(e) ==
    LET one == OneZone(Len(e.load), e.by)
        zone == TLCEval(IF one THEN [i \in DOMAIN e.bus |-> 1] ELSE IF e.by = "none" THEN AreaOf(e) ELSE e.zone)
        which == IF e.which = "default" THEN "B" ELSE e.which
        valid == /\ e.scale \in {"FACTOR", "QUANTITY", "default"} /\ e.pq \in {"PQ", "P", "default"} /\ which \in {"F", "D", "B"}
                 /\ Highest(zone) <= Len(e.load)
                 /\ which = "D" => e.gengiven
        ks == DOMAIN e.load
        pq == IF e.pq = "default" THEN "PQ" ELSE e.pq
        quantity == e.scale = "QUANTITY"
        \* too close to nothing for the rounding of doubles to say which it is
        near == quantity /\ \E k \in ks :
                    LET b == Base(e.bus, e.gen, zone, k, which)
                        o == DSub(Others(e.bus, e.gen, zone, k, which), e.load[k])
                        tiny(x) == ~DEq(x, 0) /\ DLt(DAbs(x), "1e-9")
                    IN tiny(b) \/ (DEq(b, 0) /\ tiny(o))
        possible == ~quantity \/ \A k \in ks : ~Impossible(e.bus, e.gen, zone, k, which, e.load[k])
    IN IF ~valid THEN Failing({<<"InvalidRejected", e.rejected>>})
       ELSE IF near THEN {}
       ELSE IF ~possible THEN Failing({<<"ImpossibleRejected", e.rejected>>})
       ELSE IF e.rejected THEN {"PossibleAccepted"}
       ELSE LET f == TLCEval([k \in ks |-> IF quantity THEN Factor(e.bus, e.gen, zone, k, which, e.load[k]) ELSE e.load[k]])
                kept == \A j \in DOMAIN e.gen : Serves(e.gen[j]) <=> Serves(e.gen2[j])
            IN Failing({
    <<"RequestedBusLoads", Len(e.bus2) = Len(e.bus) /\ \A i \in DOMAIN e.bus : DCloseSeq(e.bus2[i], BusAfter(e.bus[i], zone[i], f, which, pq), Tol)>>,
    <<"RequestedDispatchableLoads", Len(e.gen2) = Len(e.gen) /\ \A j \in DOMAIN e.gen :
            DCloseSeq(e.gen2[j], GenAfter(e.gen[j], ZoneAt(e.bus, zone, e.gen[j][GenBus]), f, which, pq), Tol)>>,
    <<"NothingElse", \A i \in DOMAIN e.bus : \A c \in (DOMAIN e.bus[i]) \ {Pd, Qd} : DSame(e.bus2[i][c], e.bus[i][c])>>,
    <<"TargetMet", (quantity /\ kept) => \A k \in ks : DClose(TotalP(e.bus2, e.gen2, zone, k, "B"), e.load[k], "1e-8")>>,
    <<"ArgumentsUntouched", e.untouched>>})

Verdict(e) == CASE e.ev = "total" -> Sums(e) [] e.ev = "scale" -> Scaled(e) [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
