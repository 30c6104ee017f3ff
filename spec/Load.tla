-------------------------------- MODULE Load --------------------------------
(* Demand by zone: what it sums to, and what scaling it does.  A bus row has *)
(* its number, P and Q demand and area; a unit row is a dispatchable load    *)
(* when its lower limit is negative and its upper one zero, and then it      *)
(* stands for a nominal demand of minus the lower limit.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Dec

\* columns of the tables
BusI == 1  Pd == 3  Qd == 4  Area == 7
GenBus == 1  Pg == 2  Qg == 3  Qmax == 4  Qmin == 5  Status == 8  Pmax == 9  Pmin == 10

IsLoad(g) == DLt(g[Pmin], 0) /\ DEq(g[Pmax], 0)
Serves(g) == IsLoad(g) /\ DLt(0, g[Status])
\* the reactive demand at nominal: the limit that is not zero
NominalQ(g) == IF DEq(g[Qmin], 0) THEN g[Qmax] ELSE IF DEq(g[Qmax], 0) THEN g[Qmin] ELSE 0
ZoneAt(bus, zone, n) == zone[CHOOSE i \in DOMAIN bus : DEq(bus[i][BusI], n)]

InZone(bus, gen, zone, k, j) == Serves(gen[j]) /\ ZoneAt(bus, zone, gen[j][GenBus]) = k
FixedP(bus, zone, k) == DSum([i \in DOMAIN bus |-> IF zone[i] = k THEN bus[i][Pd] ELSE 0])
FixedQ(bus, zone, k) == DSum([i \in DOMAIN bus |-> IF zone[i] = k THEN bus[i][Qd] ELSE 0])
UnitP(bus, gen, zone, k) == DNeg(DSum([j \in DOMAIN gen |-> IF InZone(bus, gen, zone, k, j) THEN gen[j][Pmin] ELSE 0]))
UnitQ(bus, gen, zone, k) == DNeg(DSum([j \in DOMAIN gen |-> IF InZone(bus, gen, zone, k, j) THEN NominalQ(gen[j]) ELSE 0]))

\* which: "F"ixed, "D"ispatchable or "B"oth
TotalP(bus, gen, zone, k, which) == DAdd(IF which # "D" THEN FixedP(bus, zone, k) ELSE 0, IF which # "F" THEN UnitP(bus, gen, zone, k) ELSE 0)
TotalQ(bus, gen, zone, k, which) == DAdd(IF which # "D" THEN FixedQ(bus, zone, k) ELSE 0, IF which # "F" THEN UnitQ(bus, gen, zone, k) ELSE 0)

-------------------------------------------------------------------------------
\* with one value and no zones, every load is of one zone; else a bus is of its area
OneZone(n, given) == n = 1 /\ given = "none"

\* what a zone's loads are multiplied by, for the zone to carry `target`; impossible without any to scale
Base(bus, gen, zone, k, which) == TotalP(bus, gen, zone, k, which)
Others(bus, gen, zone, k, which) == DSub(TotalP(bus, gen, zone, k, "B"), Base(bus, gen, zone, k, which))
Impossible(bus, gen, zone, k, which, target) == DEq(Base(bus, gen, zone, k, which), 0) /\ ~DEq(target, Others(bus, gen, zone, k, which))
Factor(bus, gen, zone, k, which, target) ==
    IF DEq(Base(bus, gen, zone, k, which), 0) THEN 1
    ELSE DDiv(DSub(target, Others(bus, gen, zone, k, which)), Base(bus, gen, zone, k, which))

\* rows after scaling; f: the factor of each zone, pq: "PQ" or "P"
BusAfter(b, z, f, which, pq) ==
    IF which = "D" \/ z \notin DOMAIN f THEN b
    ELSE [b EXCEPT ![Pd] = DMul(@, f[z]), ![Qd] = IF pq = "PQ" THEN DMul(@, f[z]) ELSE @]
GenAfter(g, z, f, which, pq) ==
    IF which = "F" \/ ~Serves(g) \/ z \notin DOMAIN f THEN g
    ELSE LET by(c) == DMul(g[c], f[z])
         IN [c \in DOMAIN g |-> IF c \in {Pg, Pmin} \/ (pq = "PQ" /\ c \in {Qg, Qmin, Qmax}) THEN by(c) ELSE g[c]]
=============================================================================
