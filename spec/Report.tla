------------------------------- MODULE Report -------------------------------
(* The printed report as a function of the result and the options.  A result *)
(* r has baseMVA, bus, gen, branch, opf (TRUE when it has an objective f),   *)
(* success, et.  o holds the options and dc.  A printed number is the value  *)
(* rounded to the decimals of its column; "-" stands for nothing to show.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Dec

ROWS(t) == DOMAIN t
Abs(z) == DSqrt(DAdd(DMul(z[1], z[1]), DMul(z[2], z[2])))
Shows(tok, v, d) == tok # "-" /\ DLe(DAbs(DSub(tok, v)), DAdd(DMul("0.5000001", <<"1", "0.1", "0.01", "0.001">>[d + 1]), DMul("1e-9", DAbs(v))))
\* positions of a table satisfying p, in order
Sel(n, p(_)) == SelectSeq([k \in 1..n |-> k], p)
Sum(ix, v(_)) == DSum([k \in DOMAIN ix |-> v(ix[k])])
NonZero(x) == ~DEq(x, 0)

\* ------------------------------------------------------------- the options
OutAny(o, what) == o.OUT_ALL = 1 \/ (o.OUT_ALL = -1 /\ what)
Lim(o, l) == LET a == IF o.OUT_ALL = -1 THEN o.OUT_ALL_LIM ELSE IF o.OUT_ALL = 1 THEN 2 ELSE 0 IN IF a = -1 THEN l ELSE a

\* ------------------------------------------------ the result, as it is shown
\* a DC result has no reactive power, charging or resistance
Shown(r, dc) == IF ~dc THEN r ELSE
    [r EXCEPT !.bus = TLCEval([k \in DOMAIN r.bus |-> [r.bus[k] EXCEPT ![4] = 0, ![6] = 0]]),
              !.gen = TLCEval([k \in DOMAIN r.gen |-> [r.gen[k] EXCEPT ![3] = 0, ![4] = 0, ![5] = 0]]),
              !.branch = TLCEval([k \in DOMAIN r.branch |-> [r.branch[k] EXCEPT ![3] = 0, ![5] = 0]])]
BusRow(r, b) == CHOOSE k \in DOMAIN r.bus : r.bus[k][1] = b
On(x) == DLt(0, x)
IsLoad(g) == DLt(g[10], 0) /\ DEq(g[9], 0)
Gens(r) == LET p(k) == ~IsLoad(r.gen[k]) IN Sel(Len(r.gen), p)
OnGens(r) == LET p(k) == On(r.gen[k][8]) /\ ~IsLoad(r.gen[k]) IN Sel(Len(r.gen), p)
OnLoads(r) == LET p(k) == On(r.gen[k][8]) /\ IsLoad(r.gen[k]) IN Sel(Len(r.gen), p)
Fixed(r) == LET p(k) == NonZero(r.bus[k][3]) \/ NonZero(r.bus[k][4]) IN Sel(Len(r.bus), p)
Shunts(r) == LET p(k) == NonZero(r.bus[k][5]) \/ NonZero(r.bus[k][6]) IN Sel(Len(r.bus), p)
Xfmrs(r) == LET p(k) == NonZero(r.branch[k][9]) IN Sel(Len(r.branch), p)
Area(r, b) == r.bus[BusRow(r, b)][7]
FArea(r, k) == Area(r, r.branch[k][1])
TArea(r, k) == Area(r, r.branch[k][2])
Ties(r) == LET p(k) == FArea(r, k) # TArea(r, k) IN Sel(Len(r.branch), p)
Areas(r) == {r.bus[k][7] : k \in DOMAIN r.bus}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})

\* series losses and charging of branch k from the bus voltages
Deg == "0.0174532925199432957692369076848861271344"
VOf(b) == LET a == DMul(b[9], Deg) IN <<DMul(b[8], DCos(a)), DMul(b[8], DSin(a))>>
TapOf(l) == LET t == IF NonZero(l[9]) THEN l[9] ELSE 1 a == DMul(l[10], Deg) IN <<DMul(t, DCos(a)), DMul(t, DSin(a))>>
Out(l) == DEq(l[11], 0)
Loss(r, dc, k) ==
    LET l == r.branch[k]
        d == CSub(CDiv(VOf(r.bus[BusRow(r, l[1])]), TapOf(l)), VOf(r.bus[BusRow(r, l[2])]))
        m == DMul(r.baseMVA, DAdd(DMul(d[1], d[1]), DMul(d[2], d[2])))
    IN IF dc \/ Out(l) THEN <<0, 0>> ELSE CDiv(<<m, 0>>, <<l[3], DNeg(l[4])>>)
Chg(r, k, end) == LET l == r.branch[k] v == r.bus[BusRow(r, l[end])][8] t == IF end = 1 /\ NonZero(l[9]) THEN l[9] ELSE 1
                      u == DDiv(v, t)
                  IN IF Out(l) THEN 0 ELSE DDiv(DMul(DMul(DMul(u, u), l[5]), r.baseMVA), 2)
Losses(r, dc) == TLCEval([k \in DOMAIN r.branch |-> Loss(r, dc, k)])
ShuntP(r, k) == DNeg(DMul(DMul(r.bus[k][8], r.bus[k][8]), r.bus[k][5]))
ShuntQ(r, k) == DMul(DMul(r.bus[k][8], r.bus[k][8]), r.bus[k][6])

\* ------------------------------------------------------------ whole sections
SameRow(row, want) == Len(row) = Len(want) /\ \A k \in DOMAIN want : k \in DOMAIN row => IF want[k][2] = 9 THEN row[k] = "-" ELSE Shows(row[k], want[k][1], want[k][2])
SameRows(rows, want) == Len(rows) = Len(want) /\ \A k \in DOMAIN want : k \in DOMAIN rows => SameRow(rows[k], want[k])
I(x) == <<x, 0>>
F1(x) == <<x, 1>>
F2(x) == <<x, 2>>
F3(x) == <<x, 3>>
None == <<"-", 9>>

\* the system summary: one row per line
Sys(r, o) ==
    LET ag == Gens(r) og == OnGens(r) ol == OnLoads(r) fx == Fixed(r) sh == Shunts(r) ti == Ties(r)
        ls == Losses(r, o.dc)
        g(ix, c) == LET v(k) == r.gen[k][c] IN Sum(ix, v)
        b(ix, c) == LET v(k) == r.bus[k][c] IN Sum(ix, v)
        sp == LET v(k) == ShuntP(r, k) IN Sum(sh, v)
        sq == LET v(k) == ShuntQ(r, k) IN Sum(sh, v)
        all == [k \in DOMAIN r.branch |-> k]
        ch == LET v(k) == DAdd(Chg(r, k, 1), Chg(r, k, 2)) IN Sum(all, v)
        tp == LET v(k) == DAbs(DSub(r.branch[k][14], r.branch[k][16])) IN DDiv(Sum(ti, v), 2)
        tq == LET v(k) == DAbs(DSub(r.branch[k][15], r.branch[k][17])) IN DDiv(Sum(ti, v), 2)
    IN << <<I(Len(r.bus)), F1(g(ag, 9)), F1(g(ag, 5)), F1(g(ag, 4))>>,
          <<I(Len(ag)), F1(g(og, 9)), F1(g(og, 5)), F1(g(og, 4))>>,
          <<I(Len(og)), F1(g(og, 2)), F1(g(og, 3))>>,
          <<I(Len(fx) + Len(ol)), F1(DSub(b(fx, 3), g(ol, 2))), F1(DSub(b(fx, 4), g(ol, 3)))>>,
          <<I(Len(fx)), F1(b(fx, 3)), F1(b(fx, 4))>>,
          <<I(Len(ol)), F1(DNeg(g(ol, 2))), F1(DNeg(g(ol, 10))), F1(DNeg(g(ol, 3)))>>,
          <<I(Len(sh)), F1(sp), F1(sq)>>,
          <<I(Len(r.branch)), F2(DSum([k \in DOMAIN ls |-> ls[k][1]])), F2(DSum([k \in DOMAIN ls |-> ls[k][2]]))>>,
          <<I(Len(Xfmrs(r))), None, F1(ch)>>,
          <<I(Len(ti)), F1(tp), F1(tq)>>,
          <<I(Cardinality(Areas(r)))>> >>

\* an extreme: the value printed is the least (greatest) and is attained at the bus named
Extreme(row, r, c, d) ==
    /\ Len(row) = 4
    /\ \E k \in DOMAIN r.bus : Shows(row[2], r.bus[k][1], 0) /\ Shows(row[1], r.bus[k][c], d) /\ \A j \in DOMAIN r.bus : DLe(r.bus[k][c], r.bus[j][c])
    /\ \E k \in DOMAIN r.bus : Shows(row[4], r.bus[k][1], 0) /\ Shows(row[3], r.bus[k][c], d) /\ \A j \in DOMAIN r.bus : DLe(r.bus[j][c], r.bus[k][c])
ExtremeLoss(row, r, ls, q) ==
    /\ Len(row) = 3
    /\ \E k \in DOMAIN ls : /\ Shows(row[1], ls[k][q], 2) /\ Shows(row[2], r.branch[k][1], 0) /\ Shows(row[3], r.branch[k][2], 0)
                            /\ \A j \in DOMAIN ls : DLe(DSub(ls[j][q], "1e-9"), ls[k][q])
Extremes(rows, r, o) ==
    LET ls == Losses(r, o.dc) n == IF o.dc THEN 2 ELSE 4 IN
    /\ Len(rows) = n + (IF r.opf THEN 2 ELSE 0)
    /\ Extreme(rows[1], r, 8, 3) /\ Extreme(rows[2], r, 9, 2)
    /\ (~o.dc => ExtremeLoss(rows[3], r, ls, 1) /\ ExtremeLoss(rows[4], r, ls, 2))
    /\ (r.opf => Extreme(rows[n + 1], r, 14, 2) /\ Extreme(rows[n + 2], r, 15, 2))

\* the four tables of the area summary: a row per area in increasing order, then the total
QCap(g) == DAdd(IF DEq(g[5], 0) THEN g[4] ELSE 0, IF DEq(g[4], 0) THEN g[5] ELSE 0)
AreaTables(r, o) ==
    LET as == Sorted(Areas(r))
        in(ix, a) == SelectSeq(ix, LAMBDA k : Area(r, r.gen[k][1]) = a)
        inb(ix, a) == SelectSeq(ix, LAMBDA k : r.bus[k][7] = a)
        all == [k \in DOMAIN r.branch |-> k]
        within(ix, a) == SelectSeq(ix, LAMBDA k : FArea(r, k) = a /\ TArea(r, k) = a)
        from(ix, a) == SelectSeq(ix, LAMBDA k : FArea(r, k) = a /\ TArea(r, k) # a)
        to(ix, a) == SelectSeq(ix, LAMBDA k : FArea(r, k) # a /\ TArea(r, k) = a)
        on == SelectSeq(all, LAMBDA k : ~Out(r.branch[k]))
        ag == Gens(r) og == OnGens(r) ol == OnLoads(r) fx == Fixed(r) sh == Shunts(r) xf == Xfmrs(r)
        ls == Losses(r, o.dc)
        g(ix, c) == LET v(k) == r.gen[k][c] IN Sum(ix, v)
        b(ix, c) == LET v(k) == r.bus[k][c] IN Sum(ix, v)
        br(ix, c) == LET v(k) == r.branch[k][c] IN Sum(ix, v)
        lo(ix, q) == LET v(k) == ls[k][q] IN Sum(ix, v)
        sp(ix) == LET v(k) == ShuntP(r, k) IN Sum(ix, v)
        sq(ix) == LET v(k) == ShuntQ(r, k) IN Sum(ix, v)
        cf(ix) == LET v(k) == Chg(r, k, 1) IN Sum(ix, v)
        ct(ix) == LET v(k) == Chg(r, k, 2) IN Sum(ix, v)
        qc(ix) == LET v(k) == QCap(r.gen[k]) IN Sum(ix, v)
        t1(head, bs, gs, gon, fs, lds, ss, brs, xs, ts) == head \o <<I(bs), I(gs), I(gon), I(fs + lds), I(fs), I(lds), I(ss), I(brs), I(xs), I(ts)>>
        t2(head, a, n) == head \o <<F1(g(a, 9)), F1(g(a, 5)), F1(g(a, 4)), F1(g(n, 9)), F1(g(n, 5)), F1(g(n, 4)), F1(g(n, 2)), F1(g(n, 3))>>
        t3(head, n, f) == head \o <<F1(DNeg(g(n, 10))), F1(DNeg(qc(n))), F1(DNeg(g(n, 2))), F1(DNeg(g(n, 3))), F1(b(f, 3)), F1(b(f, 4)),
                                    F1(DSub(b(f, 3), g(n, 2))), F1(DSub(b(f, 4), g(n, 3)))>>
        row4(a) == LET w == within(on, a) f == from(on, a) t == to(on, a) s == inb(sh, a) IN
            <<I(a), F1(sp(s)), F1(sq(s)), F1(DAdd(DAdd(cf(w), ct(w)), DAdd(cf(f), ct(t)))),
              F2(DAdd(lo(w, 1), DDiv(DAdd(lo(f, 1), lo(t, 1)), 2))), F2(DAdd(lo(w, 2), DDiv(DAdd(lo(f, 2), lo(t, 2)), 2))),
              F1(DSub(DAdd(br(t, 16), br(f, 14)), DDiv(DAdd(lo(f, 1), lo(t, 1)), 2))),
              F1(DSub(DAdd(br(t, 17), br(f, 15)), DDiv(DAdd(lo(f, 2), lo(t, 2)), 2)))>>
    IN << [k \in DOMAIN as |-> LET a == as[k] IN t1(<<I(a)>>, Len(inb([j \in DOMAIN r.bus |-> j], a)), Len(in(ag, a)), Len(in(og, a)), Len(inb(fx, a)), Len(in(ol, a)),
                     Len(inb(sh, a)), Len(within(all, a)), Len(within(xf, a)), Len(from(all, a)) + Len(to(all, a)))]
             \o << t1(<<>>, Len(r.bus), Len(ag), Len(og), Len(fx), Len(ol), Len(sh), Len(r.branch), Len(xf), Len(Ties(r))) >>,
          [k \in DOMAIN as |-> t2(<<I(as[k])>>, in(ag, as[k]), in(og, as[k]))] \o << t2(<<>>, ag, og) >>,
          [k \in DOMAIN as |-> t3(<<I(as[k])>>, in(ol, as[k]), inb(fx, as[k]))] \o << t3(<<>>, ol, fx) >>,
          [k \in DOMAIN as |-> row4(as[k])]
             \o << <<F1(sp(sh)), F1(sq(sh)), F1(DAdd(cf(all), ct(all))), F2(lo(all, 1)), F2(lo(all, 2)), None, None>> >> >>

\* units and dispatchable loads in service (numbered from zero), then the total
Units(r, ix, sign) ==
    LET s(x) == IF sign THEN DNeg(x) ELSE x
        p(k) == IF NonZero(r.gen[k][2]) \/ NonZero(r.gen[k][3]) THEN <<F2(s(r.gen[k][2])), F2(s(r.gen[k][3]))>> ELSE <<None, None>>
        lam(k) == LET b == r.bus[BusRow(r, r.gen[k][1])] IN IF r.opf THEN <<F2(b[14]), F2(b[15])>> ELSE <<>>
        v2(k) == r.gen[k][2]
        v3(k) == r.gen[k][3]
    IN [j \in DOMAIN ix |-> LET k == ix[j] IN <<I(k - 1), I(r.gen[k][1]), I(r.gen[k][8])>> \o p(k) \o lam(k)]
       \o << <<F2(s(Sum(ix, v2))), F2(s(Sum(ix, v3)))>> >>

\* one row per bus, then the total
AtBus(r, ix, k) == SelectSeq(ix, LAMBDA j : r.gen[j][1] = r.bus[k][1])
Buses(r) ==
    LET og == OnGens(r) ol == OnLoads(r) fx == Fixed(r)
        g(ix, c) == LET v(k) == r.gen[k][c] IN Sum(ix, v)
        b(ix, c) == LET v(k) == r.bus[k][c] IN Sum(ix, v)
    IN [k \in DOMAIN r.bus |-> LET row == r.bus[k] gs == AtBus(r, og, k) ls == AtBus(r, ol, k) IN
            <<I(row[1]), F3(row[8]), F3(row[9])>>
            \o (IF gs # <<>> THEN <<F2(g(gs, 2)), F2(g(gs, 3))>> ELSE <<None, None>>)
            \o (IF ls # <<>> \/ NonZero(row[3]) \/ NonZero(row[4]) THEN <<F2(DSub(row[3], g(ls, 2))), F2(DSub(row[4], g(ls, 3)))>> ELSE <<None, None>>)
            \o (IF r.opf THEN <<F3(row[14]), IF DLt("1e-4", DAbs(row[15])) THEN F3(row[15]) ELSE None>> ELSE <<>>)]
       \o << <<F2(g(og, 2)), F2(g(og, 3)), F2(DSub(b(fx, 3), g(ol, 2))), F2(DSub(b(fx, 4), g(ol, 3)))>> >>
\* stars: after the angle of a reference bus, after loads that include dispatchable ones
Stars(r) == [k \in DOMAIN r.bus |-> (IF r.bus[k][2] = 3 THEN {3} ELSE {}) \cup (IF AtBus(r, OnLoads(r), k) # <<>> THEN {6, 7} ELSE {})]

Branches(r, o) ==
    LET ls == Losses(r, o.dc) IN
    [k \in DOMAIN r.branch |-> LET l == r.branch[k] IN
        <<I(k - 1), I(l[1]), I(l[2]), F2(l[14]), F2(l[15]), F2(l[16]), F2(l[17]), F3(ls[k][1]), F2(ls[k][2])>>]
    \o << <<F3(DSum([k \in DOMAIN ls |-> ls[k][1]])), F2(DSum([k \in DOMAIN ls |-> ls[k][2]]))>> >>

\* ------------------------------------------------------------ limits
PTOL == "1e-4"
Below(x, lo, mu, o) == DLt(x, DAdd(lo, o.OPF_VIOLATION)) \/ DLt(PTOL, mu)
Above(x, hi, mu, o) == DLt(DSub(hi, o.OPF_VIOLATION), x) \/ DLt(PTOL, mu)
\* listed: everything (2), what binds (1), nothing (0)
Listed(lim, ix, binds(_)) == IF lim = 2 THEN ix ELSE IF lim = 1 THEN SelectSeq(ix, binds) ELSE <<>>
Present(lim, ix, binds(_)) == lim = 2 \/ (lim = 1 /\ SelectSeq(ix, binds) # <<>>)
Val(x, on) == IF on THEN F2(x) ELSE None

VBinds(r, o, k) == LET b == r.bus[k] IN Below(b[8], b[13], b[17], o) \/ Above(b[8], b[12], b[16], o)
VLim(r, o) == LET f(k) == VBinds(r, o, k) ix == Listed(Lim(o, o.OUT_V_LIM), [k \in DOMAIN r.bus |-> k], f) IN
    [j \in DOMAIN ix |-> LET b == r.bus[ix[j]] IN
        <<I(b[1]), IF Below(b[8], b[13], b[17], o) THEN F3(b[17]) ELSE None, F3(b[13]), F3(b[8]), F3(b[12]),
          IF Above(b[8], b[12], b[16], o) THEN F3(b[16]) ELSE None>>]
\* columns: value, lower, upper limit and the multipliers of the upper and lower one
PCols == [x |-> 2, lo |-> 10, hi |-> 9, muhi |-> 22, mulo |-> 23]
QCols == [x |-> 3, lo |-> 5, hi |-> 4, muhi |-> 24, mulo |-> 25]
GBinds(r, o, c, k) == LET g == r.gen[k] IN Below(g[c.x], g[c.lo], g[c.mulo], o) \/ Above(g[c.x], g[c.hi], g[c.muhi], o)
GLim(r, o, ix, c, lim) == LET f(k) == GBinds(r, o, c, k) li == Listed(lim, ix, f) IN
    [j \in DOMAIN li |-> LET g == r.gen[li[j]] IN
        <<I(li[j] - 1), I(g[1]), IF Below(g[c.x], g[c.lo], g[c.mulo], o) THEN F3(g[c.mulo]) ELSE None,
          F2(g[c.lo]), Val(g[c.x], NonZero(g[c.x])), F2(g[c.hi]), IF Above(g[c.x], g[c.hi], g[c.muhi], o) THEN F3(g[c.muhi]) ELSE None>>]
GPresent(r, o, ix, c, lim) == LET f(k) == GBinds(r, o, c, k) IN Present(lim, ix, f)

\* the quantity limited at either end: real power, current or apparent power
Flow(r, o, k, end) == LET l == r.branch[k] s == <<l[IF end = 1 THEN 14 ELSE 16], l[IF end = 1 THEN 15 ELSE 17]>> IN
    IF o.OPF_FLOW_LIM = 1 \/ o.dc THEN s[1] ELSE IF o.OPF_FLOW_LIM = 2 THEN DDiv(Abs(s), r.bus[BusRow(r, l[end])][8]) ELSE Abs(s)
FBinds(r, o, k) == LET l == r.branch[k] IN
    \/ NonZero(l[6]) /\ \E e \in {1, 2} : DLt(DSub(l[6], o.OPF_VIOLATION), DAbs(Flow(r, o, k, e)))
    \/ DLt(PTOL, l[18]) \/ DLt(PTOL, l[19])
FList(r, o) == LET f(k) == FBinds(r, o, k) IN Listed(Lim(o, o.OUT_LINE_LIM), [k \in DOMAIN r.branch |-> k], f)
\* the multiplier must be shown when it is not negligible; otherwise it or "-" may stand there
MuOk(tok, mu) == IF DLt(PTOL, mu) THEN Shows(tok, mu, 3) ELSE tok = "-" \/ Shows(tok, mu, 3)
FLimOk(rows, r, o) == LET ix == FList(r, o) IN
    /\ Len(rows) = Len(ix)
    /\ \A j \in DOMAIN ix : LET l == r.branch[ix[j]] row == rows[j] IN
        /\ Len(row) = 8 /\ Shows(row[1], ix[j] - 1, 0) /\ Shows(row[2], l[1], 0) /\ Shows(row[8], l[2], 0)
        /\ MuOk(row[3], l[18]) /\ MuOk(row[7], l[19])
        /\ Shows(row[4], Flow(r, o, ix[j], 1), 2) /\ Shows(row[5], l[6], 2) /\ Shows(row[6], Flow(r, o, ix[j], 2), 2)
FPresent(r, o) == LET f(k) == FBinds(r, o, k) IN Present(Lim(o, o.OUT_LINE_LIM), [k \in DOMAIN r.branch |-> k], f)

\* ------------------------------------------------------------ the sequence of sections
Titles(r, o) ==
    LET plim == Lim(o, o.OUT_PG_LIM) qlim == Lim(o, o.OUT_QG_LIM)
        vf(k) == VBinds(r, o, k)
        gp == GPresent(r, o, OnGens(r), PCols, plim)
        gq == ~o.dc /\ GPresent(r, o, OnGens(r), QCols, qlim)
        lp == GPresent(r, o, OnLoads(r), PCols, plim)
        lq == ~o.dc /\ GPresent(r, o, OnLoads(r), QCols, qlim)
        opt(c, t) == IF c THEN t ELSE <<>>
    IN opt(OutAny(o, o.OUT_SYS_SUM), <<"System Summary">>) \o opt(OutAny(o, o.OUT_AREA_SUM), <<"Area Summary">>)
       \o opt(OutAny(o, o.OUT_GEN), <<"Generator Data">> \o opt(OnLoads(r) # <<>>, <<"Dispatchable Load Data">>))
       \o opt(OutAny(o, o.OUT_BUS), <<"Bus Data">>) \o opt(OutAny(o, o.OUT_BRANCH), <<"Branch Data">>)
       \o opt(r.opf, opt(~o.dc /\ Present(Lim(o, o.OUT_V_LIM), [k \in DOMAIN r.bus |-> k], vf), <<"Voltage Constraints">>)
                      \o opt(gp \/ gq, <<"Generation Constraints">> \o opt(gp, <<"P">>) \o opt(gq, <<"Q">>))
                      \o opt(lp \/ lq, <<"Dispatchable Load Constraints">> \o opt(lp, <<"P">>) \o opt(lq, <<"Q">>))
                      \o opt(FPresent(r, o), <<"Branch Flow Constraints">>))
\* convergence and objective head the report whenever anything of it may be printed
AnyOutput(o) == OutAny(o, o.OUT_SYS_SUM \/ o.OUT_AREA_SUM \/ o.OUT_BUS \/ o.OUT_BRANCH \/ o.OUT_GEN)
                \/ (o.OUT_ALL # 0 /\ (o.OUT_ALL_LIM >= 1 \/ (o.OUT_ALL_LIM = -1 /\ (o.OUT_V_LIM + o.OUT_LINE_LIM + o.OUT_PG_LIM + o.OUT_QG_LIM > 0))))
=============================================================================
