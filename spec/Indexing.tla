------------------------------ MODULE Indexing ------------------------------
(* External and internal numbering of a case.                              *)
(*                                                                          *)
(* A case is a record [bus, gen, branch : tables, plus optional tables].    *)
(* A table is a sequence of rows, a row a sequence of numbers.  Of a row    *)
(* only these columns mean anything here; the rest is payload.              *)
EXTENDS Integers, Sequences, FiniteSets

BUSI == 1   BTYPE == 2          \* bus
GBUS == 1   GSTAT == 8          \* gen
FBUS == 1   TBUS == 2   BSTAT == 11   \* branch
ABUS == 2                       \* areas: price reference bus
ISOLATED == 4

Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

\* the subsequence of 1..n at which P holds, in order
RECURSIVE IndicesRec(_, _, _)
IndicesRec(n, P(_), k) ==
    IF k > n THEN <<>> ELSE (IF P(k) THEN <<k>> ELSE <<>>) \o IndicesRec(n, P, k + 1)
Indices(n, P(_)) == IndicesRec(n, P, 1)

Rng(s) == {s[k] : k \in DOMAIN s}
Take(t, idx) == [k \in DOMAIN idx |-> t[idx[k]]]
TakeCols(t, idx) == [r \in DOMAIN t |-> Take(t[r], idx)]

-----------------------------------------------------------------------------
(* what is in service *)
OnBus(c) == Indices(Len(c.bus), LAMBDA k : c.bus[k][BTYPE] # ISOLATED)
OnBusNumbers(c) == {c.bus[k][BUSI] : k \in Rng(OnBus(c))}
OnGen(c) == Indices(Len(c.gen), LAMBDA k : c.gen[k][GSTAT] > 0 /\ c.gen[k][GBUS] \in OnBusNumbers(c))
OnBranch(c) == Indices(Len(c.branch), LAMBDA k : /\ c.branch[k][BSTAT] # 0
                                                 /\ c.branch[k][FBUS] \in OnBusNumbers(c)
                                                 /\ c.branch[k][TBUS] \in OnBusNumbers(c))
OnArea(c) == Indices(Len(c.areas), LAMBDA k : c.areas[k][ABUS] \in OnBusNumbers(c))

\* internal number (from 0) of an in-service external bus number
Pos(c, b) == LET on == OnBus(c) IN (CHOOSE k \in DOMAIN on : c.bus[on[k]][BUSI] = b) - 1
Ext(c, i) == c.bus[OnBus(c)[i + 1]][BUSI]

(* perm[k] is the index, among the in-service generators in their original  *)
(* order, of internal generator k: any order that sorts them by bus.        *)
IsGenOrder(c, perm) ==
    LET on == OnGen(c) IN
    /\ Len(perm) = Len(on)
    /\ Rng(perm) = 1..Len(on)
    /\ \A k \in 1..(Len(perm) - 1) :
          Pos(c, c.gen[on[perm[k]]][GBUS]) <= Pos(c, c.gen[on[perm[k + 1]]][GBUS])

(* the canonical internal tables *)
IntBus(c) == LET on == OnBus(c) IN [k \in DOMAIN on |-> [c.bus[on[k]] EXCEPT ![BUSI] = k - 1]]
IntBranch(c) == LET on == OnBranch(c) IN
    [k \in DOMAIN on |-> [c.branch[on[k]] EXCEPT ![FBUS] = Pos(c, c.branch[on[k]][FBUS]),
                                                 ![TBUS] = Pos(c, c.branch[on[k]][TBUS])]]
IntGen(c, perm) == LET on == OnGen(c) IN
    [k \in DOMAIN perm |-> [c.gen[on[perm[k]]] EXCEPT ![GBUS] = Pos(c, c.gen[on[perm[k]]][GBUS])]]
IntAreas(c) == LET on == OnArea(c) IN
    [k \in DOMAIN on |-> [c.areas[on[k]] EXCEPT ![ABUS] = Pos(c, c.areas[on[k]][ABUS])]]

(* reordering of arbitrary data ordered by bus, gen or branch *)
IdxOf(c, perm, kind) ==
    CASE kind = "bus" -> OnBus(c)
      [] kind = "branch" -> OnBranch(c)
      [] kind = "gen" -> LET on == OnGen(c) IN [k \in DOMAIN perm |-> on[perm[k]]]
ExtLen(c, kind) == CASE kind = "bus" -> Len(c.bus) [] kind = "branch" -> Len(c.branch) [] kind = "gen" -> Len(c.gen)

\* external indices, in internal order, of data made of consecutive blocks plus a tail of n - (blocks) extras
RECURSIVE BlockIdx(_, _, _, _, _)
BlockIdx(c, perm, kinds, base, n) ==
    IF kinds = <<>> THEN [k \in 1..(n - base) |-> base + k]
    ELSE LET ix == IdxOf(c, perm, Head(kinds)) IN
         [k \in DOMAIN ix |-> base + ix[k]] \o BlockIdx(c, perm, Tail(kinds), base + ExtLen(c, Head(kinds)), n)
RECURSIVE SumLen(_, _)
SumLen(c, kinds) == IF kinds = <<>> THEN 0 ELSE ExtLen(c, Head(kinds)) + SumLen(c, Tail(kinds))

E2I(c, perm, kinds, v) == Take(v, BlockIdx(c, perm, kinds, 0, Len(v)))
\* back: positions named by the index map get the internal values, every other one keeps the old value
PutBack(idx, v, old) ==
    [p \in DOMAIN old |-> IF p \in Rng(idx) THEN v[CHOOSE k \in DOMAIN idx : idx[k] = p] ELSE old[p]]
I2E(c, perm, kinds, v, old) == PutBack(BlockIdx(c, perm, kinds, 0, Len(old)), v, old)

(* the external tables once internal tables ib, ig, ir come back *)
ExtBus(c, ib) == PutBack(OnBus(c), [k \in DOMAIN ib |-> [ib[k] EXCEPT ![BUSI] = Ext(c, ib[k][BUSI])]], c.bus)
ExtBranch(c, ir) == PutBack(OnBranch(c),
    [k \in DOMAIN ir |-> [ir[k] EXCEPT ![FBUS] = Ext(c, ir[k][FBUS]), ![TBUS] = Ext(c, ir[k][TBUS])]], c.branch)
ExtGen(c, perm, ig) == PutBack(IdxOf(c, perm, "gen"),
    [k \in DOMAIN ig |-> [ig[k] EXCEPT ![GBUS] = Ext(c, ig[k][GBUS])]], c.gen)
ExtAreas(c, ia) == PutBack(OnArea(c), [k \in DOMAIN ia |-> [ia[k] EXCEPT ![ABUS] = Ext(c, ia[k][ABUS])]], c.areas)
=============================================================================
