-------------------------------- MODULE Cost --------------------------------
(* Generator cost rows: MODEL, startup, shutdown, NCOST, then coefficients   *)
(* (highest power first) or breakpoints x1 y1 x2 y2 ...                       *)
EXTENDS Integers, Sequences, FiniteSets, Dec

MODEL == 1   NCOST == 4   COST == 5
PWL == 1     POLY == 2
NC(r) == DInt(r[NCOST])
RECURSIVE HornerC(_, _)
HornerC(co, x) == IF co = <<>> THEN 0 ELSE DAdd(DMul(HornerC(SubSeq(co, 1, Len(co) - 1), x), x), co[Len(co)])
Coefs(r) == [k \in 1..NC(r) |-> r[COST + k - 1]]
\* coefficients of the derivative
DCoefs(co) == IF Len(co) <= 1 THEN <<>> ELSE [k \in 1..(Len(co) - 1) |-> DMul(co[k], Len(co) - k)]
PolyAt(r, x, d) == LET c0 == Coefs(r) IN
    HornerC(IF d = 0 THEN c0 ELSE IF d = 1 THEN DCoefs(c0) ELSE DCoefs(DCoefs(c0)), x)
Xs(r) == [k \in 1..NC(r) |-> r[COST + 2 * (k - 1)]]
Ys(r) == [k \in 1..NC(r) |-> r[COST + 2 * (k - 1) + 1]]
Slope(r, k) == LET x == Xs(r)  y == Ys(r) IN DDiv(DSub(y[k + 1], y[k]), DSub(x[k + 1], x[k]))
\* linear between breakpoints, the end segments extended
PwlAt(r, x) ==
    LET xs == Xs(r)  n == NC(r)
        k == IF \E q \in 1..(n - 1) : DLe(x, xs[q + 1])
             THEN CHOOSE q \in 1..(n - 1) : DLe(x, xs[q + 1]) /\ \A j \in 1..(q - 1) : ~DLe(x, xs[j + 1]) ELSE n - 1
    IN DAdd(Ys(r)[k], DMul(Slope(r, k), DSub(x, xs[k])))
CostAt(r, x) == IF DEq(r[MODEL], PWL) THEN PwlAt(r, x) ELSE PolyAt(r, x, 0)
TotalCost(g, x) == DSum([k \in DOMAIN g |-> CostAt(g[k], x[k])])

(* modifications: G is the modified F *)
ModifiedAt(f(_), type, a, x) ==
    CASE type = "SCALE_F" -> DMul(f(x), a)
      [] type = "SCALE_X" -> f(DDiv(x, a))
      [] type = "SHIFT_F" -> DAdd(f(x), a)
      [] type = "SHIFT_X" -> f(DSub(x, a))

(* breakpoints a polynomial is sampled at: n of them *)
Sample(lo, hi, n) ==
    IF DLt(0, lo) THEN <<0>> \o [k \in 1..(n - 1) |-> DAdd(lo, DDiv(DMul(k - 1, DSub(hi, lo)), n - 2))]
    ELSE [k \in 1..n |-> DAdd(lo, DDiv(DMul(k - 1, DSub(hi, lo)), n - 1))]
=============================================================================
