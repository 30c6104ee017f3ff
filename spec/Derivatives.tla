---------------------------- MODULE Derivatives ----------------------------
(* What the power-flow derivative routines must return.  The specification   *)
(* has only the functions (injections, branch powers and currents) of the    *)
(* branch model; derivatives are their central differences, evaluated with   *)
(* 34 digits and a step of 1e-9 so that truncation (~1e-17) and rounding     *)
(* (~1e-24) are far below the accuracy of doubles.  Cases in internal form.  *)
EXTENDS Matrices

Nil(z) == DEq(z[1], 0) /\ DEq(z[2], 0)
Step == "0.000000001"
\* voltages v (rectangular) with bus k turned by a, or stretched by m (p.u.)
Turn(v, k, a) == [v EXCEPT ![k] = CMul(@, <<DCos(a), DSin(a)>>)]
Stretch(v, k, m) == [v EXCEPT ![k] = CScale(DDiv(DAdd(CAbs(@), m), CAbs(@)), @)]
Moved(v, k, by, angle) == TLCEval(IF angle THEN Turn(v, k, by) ELSE Stretch(v, k, by))

Diff2(hi, lo) == CScale(DDiv(1, DMul(2, Step)), CSub(hi, lo))

\* the quantities, each at voltages v
Inj(c, y, i, v) == CMul(v[i], CConj(CSum([k \in DOMAIN v |-> IF Nil(y[i][k]) THEN Zero ELSE CMul(y[i][k], v[k])])))
OnOff(c, b, z) == IF c.branch[b][BSTAT] = 0 THEN Zero ELSE z
BrS(c, b, v, from) == OnOff(c, b, IF from THEN PowF(c.branch[b], v[F(c, b)], v[T(c, b)])
                                  ELSE PowT(c.branch[b], v[F(c, b)], v[T(c, b)]))
BrI(c, b, v, from) == OnOff(c, b, IF from THEN CurF(c.branch[b], v[F(c, b)], v[T(c, b)])
                                  ELSE CurT(c.branch[b], v[F(c, b)], v[T(c, b)]))
\* squared flow: of complex power, of current, of real power
Sq(z, real) == IF real THEN <<DMul(z[1], z[1]), 0>> ELSE <<CAbs2(z), 0>>

\* partial derivative of q(v) with respect to angle/magnitude of bus k
Partial(q(_), v, k, angle) == Diff2(q(Moved(v, k, Step, angle)), q(Moved(v, k, DNeg(Step), angle)))

\* only the buses a quantity depends on
DInj(c, y, v, i, k, angle) ==
    IF i # k /\ Nil(y[i][k]) THEN Zero ELSE Partial(LAMBDA w : Inj(c, y, i, w), v, k, angle)
DBrS(c, v, b, k, angle, from) ==
    IF k \notin {F(c, b), T(c, b)} THEN Zero ELSE Partial(LAMBDA w : BrS(c, b, w, from), v, k, angle)
DBrI(c, v, b, k, angle, from) ==
    IF k \notin {F(c, b), T(c, b)} THEN Zero ELSE Partial(LAMBDA w : BrI(c, b, w, from), v, k, angle)
DBrA(c, v, b, k, angle, from, kind) ==
    IF k \notin {F(c, b), T(c, b)} THEN Zero
    ELSE Partial(LAMBDA w : IF kind = "I" THEN Sq(BrI(c, b, w, from), FALSE) ELSE Sq(BrS(c, b, w, from), kind = "P"), v, k, angle)
=============================================================================
