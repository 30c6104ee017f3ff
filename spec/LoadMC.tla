------------------------------- MODULE LoadMC -------------------------------
(* Every way of asking for a scaling, on every small case: what the operators*)
(* of Load promise each other.                                               *)
EXTENDS Load, Json
CONSTANTS Depth, Ps
VARIABLES bus, gen, h
vars == <<bus, gen, h>>
Bus(n, p, q, a) == [c \in 1..7 |-> CASE c = BusI -> n [] c = Pd -> p [] c = Qd -> q [] c = Area -> a [] OTHER -> 0]
Gen(n, p, q, on) == [c \in 1..10 |-> CASE c = GenBus -> n [] c = Pmin -> p [] c = Qmin -> q [] c = Status -> on [] c = Pg -> p [] OTHER -> 0]
Init == /\ \E p1 \in Ps : \E p2 \in Ps : \E a \in {1, 2} : bus = <<Bus(7, p1, 1, 1), Bus(3, p2, 2, a)>>
        /\ \E p \in {0, -4} : \E on \in {0, 1} : \E n \in {7, 3} : gen = <<Gen(n, p, -2, on), Gen(3, -2, 0, 1)>>
        /\ h = <<>>
Zones == {<<bus[1][Area], bus[2][Area]>>, <<1, 1>>, <<0, 1>>, <<2, 1>>}
Asks == [scale : {"FACTOR", "QUANTITY"}, which : {"F", "D", "B"}, pq : {"PQ", "P"}, zone : Zones, x : {0, 2, 6}]
Nz(z) == IF z[1] > z[2] THEN z[1] ELSE z[2]
Fs(a) == [k \in 1..Nz(a.zone) |-> IF a.scale = "FACTOR" THEN a.x ELSE Factor(bus, gen, a.zone, k, a.which, a.x)]
Possible(a) == a.scale = "FACTOR" \/ \A k \in 1..Nz(a.zone) : ~Impossible(bus, gen, a.zone, k, a.which, a.x)
Next == /\ Len(h) < Depth
        /\ \E a \in Asks : /\ Possible(a)
             /\ LET f == TLCEval(Fs(a)) IN
                /\ bus' = [i \in DOMAIN bus |-> BusAfter(bus[i], a.zone[i], f, a.which, a.pq)]
                /\ gen' = [j \in DOMAIN gen |-> GenAfter(gen[j], ZoneAt(bus, a.zone, gen[j][GenBus]), f, a.which, a.pq)]
             /\ h' = Append(h, a)
Spec == Init /\ [][Next]_vars
L == h'[Len(h')]
\* a zone scaled to a quantity carries it (a load scaled to nothing or beyond is no longer one)
Kept == Cardinality({j \in DOMAIN gen' : Serves(gen'[j])}) = Cardinality({j \in DOMAIN gen : Serves(gen[j])})
Near == \E k \in 1..Nz(L.zone) : LET b == Base(bus, gen, L.zone, k, L.which) IN ~DEq(b, 0) /\ DLt(DAbs(b), "1e-9")
MeetsTarget == [][(L.scale = "QUANTITY" /\ Kept /\ ~Near) => \A k \in 1..Nz(L.zone) : DClose(TotalP(bus', gen', L.zone, k, "B"), L.x, "1e-20")]_vars
\* totals scale as asked
MeetsFactor == [][(L.scale = "FACTOR" /\ Kept) => \A k \in 1..Nz(L.zone) :
    /\ DClose(TotalP(bus', gen', L.zone, k, L.which), DMul(L.x, TotalP(bus, gen, L.zone, k, L.which)), "1e-20")
    /\ DClose(TotalQ(bus', gen', L.zone, k, L.which), IF L.pq = "PQ" THEN DMul(L.x, TotalQ(bus, gen, L.zone, k, L.which)) ELSE TotalQ(bus, gen, L.zone, k, L.which), "1e-20")]_vars
\* what was not asked for stays: the other kind, the other zones, units that are no loads
OthersStay == [][/\ (L.which = "F" => gen' = gen) /\ (L.which = "D" => bus' = bus)
                 /\ \A i \in DOMAIN bus : L.zone[i] = 0 => bus'[i] = bus[i]
                 /\ \A j \in DOMAIN gen : ~Serves(gen[j]) => gen'[j] = gen[j]]_vars
\* the parts make the whole
PartsAddUp == \A z \in Zones : \A k \in 1..Nz(z) : DClose(TotalP(bus, gen, z, k, "B"), DAdd(TotalP(bus, gen, z, k, "F"), TotalP(bus, gen, z, k, "D")), "1e-20")
=============================================================================
