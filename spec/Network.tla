------------------------------ MODULE Network ------------------------------
(* The electrical model.  A case record c has baseMVA and the tables bus,   *)
(* gen, branch in external form (original bus numbers); what is in service  *)
(* is defined by Indexing.  Complex numbers are <<re, im>> decimals.        *)
EXTENDS Indexing, Dec

PD == 3   QD == 4   GS == 5   BS == 6   AREA == 7   VM == 8   VA == 9   ZONE == 11   VMAX == 12   VMIN == 13
LAMP == 14   LAMQ == 15   MUVMAX == 16   MUVMIN == 17
PG == 2   QG == 3   QMAX == 4   QMIN == 5   VG == 6   PMAX == 9   PMIN == 10
MUPMAX == 22   MUPMIN == 23   MUQMAX == 24   MUQMIN == 25
BRR == 3   BRX == 4   BRB == 5   RATEA == 6   TAP == 9   SHIFT == 10   ANGMIN == 12   ANGMAX == 13
PF == 14   QF == 15   PT == 16   QT == 17   MUSF == 18   MUST == 19   MUANGMIN == 20   MUANGMAX == 21
REFBUS == 3   PVBUS == 2   PQBUS == 1

PI == "3.14159265358979323846264338327950288"
Rad(deg) == DDiv(DMul(deg, PI), 180)
Polar(m, deg) == LET a == Rad(deg) IN <<DMul(m, DCos(a)), DMul(m, DSin(a))>>
CScale(k, z) == <<DMul(k, z[1]), DMul(k, z[2])>>
CNeg(z) == <<DNeg(z[1]), DNeg(z[2])>>
CAbs2(z) == DAdd(DMul(z[1], z[1]), DMul(z[2], z[2]))
CAbs(z) == DSqrt(CAbs2(z))
CDot(s, t) == CSum([k \in DOMAIN s |-> CMul(s[k], t[k])])
CClose(a, b, tol) == DClose(a[1], b[1], tol) /\ DClose(a[2], b[2], tol)
\* |a - b| <= tol, absolutely
DNear(a, b, tol) == DLe(DAbs(DSub(a, b)), tol)
CNear(a, b, tol) == DNear(a[1], b[1], tol) /\ DNear(a[2], b[2], tol)
DMax(a, b) == IF DLe(a, b) THEN b ELSE a
DMin(a, b) == IF DLe(a, b) THEN a ELSE b

-----------------------------------------------------------------------------
(* one branch, row br: the pi model with an ideal transformer at the from end *)
TapOf(br) == IF DEq(br[TAP], 0) THEN 1 ELSE br[TAP]
Series(br) == CDiv(<<1, 0>>, <<br[BRR], br[BRX]>>)
Ytt(br) == CAdd(Series(br), <<0, DDiv(br[BRB], 2)>>)
Yff(br) == CScale(DDiv(1, DMul(TapOf(br), TapOf(br))), Ytt(br))
Yft(br) == CNeg(CDiv(Series(br), CConj(Polar(TapOf(br), br[SHIFT]))))
Ytf(br) == CNeg(CDiv(Series(br), Polar(TapOf(br), br[SHIFT])))
\* current into the branch, complex power into the branch (p.u.) at either end
CurF(br, vf, vt) == CAdd(CMul(Yff(br), vf), CMul(Yft(br), vt))
CurT(br, vf, vt) == CAdd(CMul(Ytf(br), vf), CMul(Ytt(br), vt))
PowF(br, vf, vt) == CMul(vf, CConj(CurF(br, vf, vt)))
PowT(br, vf, vt) == CMul(vt, CConj(CurT(br, vf, vt)))
\* the linear (DC) branch: flow at the from end (p.u.) for angles in degrees
SusDC(br) == DDiv(1, DMul(br[BRX], TapOf(br)))
FlowDC(br, af, at) == DMul(SusDC(br), Rad(DSub(DSub(af, at), br[SHIFT])))

-----------------------------------------------------------------------------
(* one row per equipment; buses by external number *)
BusRow(c, no) == CHOOSE k \in DOMAIN c.bus : c.bus[k][BUSI] = no
FromPos(c, k) == BusRow(c, c.branch[k][FBUS])
ToPos(c, k) == BusRow(c, c.branch[k][TBUS])
UnitsAt(c, k) == Indices(Len(c.gen), LAMBDA j : c.gen[j][GBUS] = c.bus[k][BUSI] /\ c.gen[j][GSTAT] > 0)
Volts(c) == [k \in DOMAIN c.bus |-> Polar(c.bus[k][VM], c.bus[k][VA])]

(* the complex power balance (MVA) of in-service bus k: generation - load -  *)
(* shunt - flow into branches, flows taken from the branch model at voltages v *)
BranchEnds(c, k, v) ==
    LET on == OnBranch(c)
        f == Indices(Len(on), LAMBDA q : FromPos(c, on[q]) = k)
        t == Indices(Len(on), LAMBDA q : ToPos(c, on[q]) = k)
        sf(q) == LET b == on[f[q]] IN PowF(c.branch[b], v[k], v[ToPos(c, b)])
        st(q) == LET b == on[t[q]] IN PowT(c.branch[b], v[FromPos(c, b)], v[k])
    IN CAdd(CSum([q \in DOMAIN f |-> sf(q)]), CSum([q \in DOMAIN t |-> st(q)]))
ShuntDraw(c, k) == LET m2 == DMul(c.bus[k][VM], c.bus[k][VM]) IN
    <<DMul(m2, c.bus[k][GS]), DNeg(DMul(m2, c.bus[k][BS]))>>
Scheduled(c, k) == LET u == UnitsAt(c, k) IN
    CSub(<<DSum([q \in DOMAIN u |-> c.gen[u[q]][PG]]), DSum([q \in DOMAIN u |-> c.gen[u[q]][QG]])>>,
         <<c.bus[k][PD], c.bus[k][QD]>>)
Drawn(c, k, v) == CAdd(CScale(c.baseMVA, BranchEnds(c, k, v)), ShuntDraw(c, k))
Residual(c, k, v) == CSub(Scheduled(c, k), Drawn(c, k, v))

(* linear balance (MW) of bus k for the DC model, angles in c *)
DCEnds(c, k) ==
    LET on == OnBranch(c)
        fl(b) == FlowDC(c.branch[b], c.bus[FromPos(c, b)][VA], c.bus[ToPos(c, b)][VA])
        f == Indices(Len(on), LAMBDA q : FromPos(c, on[q]) = k)
        t == Indices(Len(on), LAMBDA q : ToPos(c, on[q]) = k)
    IN DSub(DSum([q \in DOMAIN f |-> fl(on[f[q]])]), DSum([q \in DOMAIN t |-> fl(on[t[q]])]))
ResidualDC(c, k) == DSub(DSub(Scheduled(c, k)[1], c.bus[k][GS]), DMul(c.baseMVA, DCEnds(c, k)))

-----------------------------------------------------------------------------
(* bus roles *)
Alive(c, k) == UnitsAt(c, k) # <<>>
DeclaredRef(c) == {k \in Rng(OnBus(c)) : c.bus[k][BTYPE] = REFBUS /\ Alive(c, k)}
DeclaredPV(c) == {k \in Rng(OnBus(c)) : c.bus[k][BTYPE] = PVBUS /\ Alive(c, k)}
HasReference(c) == DeclaredRef(c) # {} \/ DeclaredPV(c) # {}
\* the voltage-controlled bus that takes over as the reference
FirstPV(c) == CHOOSE k \in DeclaredPV(c) : \A j \in DeclaredPV(c) : k <= j
\* <<ref, pv, pq>> is an acceptable assignment of roles
RolesOk(c, ref, pv, pq) ==
    /\ ref \cup pv \cup pq = Rng(OnBus(c))
    /\ ref \cap pv = {} /\ ref \cap pq = {} /\ pv \cap pq = {}
    /\ pq = Rng(OnBus(c)) \ (DeclaredRef(c) \cup DeclaredPV(c))
    /\ IF DeclaredRef(c) # {} THEN ref = DeclaredRef(c) /\ pv = DeclaredPV(c)
       ELSE ref = {FirstPV(c)} /\ pv = DeclaredPV(c) \ ref
\* the roles as functions of the case
TheRef(c) == IF DeclaredRef(c) # {} THEN DeclaredRef(c)
             ELSE {FirstPV(c)}
ThePV(c) == DeclaredPV(c) \ TheRef(c)
ThePQ(c) == Rng(OnBus(c)) \ (TheRef(c) \cup ThePV(c))

(* connectivity of the in-service network *)
RECURSIVE Reach(_, _)
Reach(c, S) == LET T == S \cup {ToPos(c, b) : b \in {b \in Rng(OnBranch(c)) : FromPos(c, b) \in S}}
                          \cup {FromPos(c, b) : b \in {b \in Rng(OnBranch(c)) : ToPos(c, b) \in S}}
               IN IF T = S THEN S ELSE Reach(c, T)
Connected(c) == OnBus(c) # <<>> /\ Reach(c, {OnBus(c)[1]}) = Rng(OnBus(c))
=============================================================================
