----------------------------- MODULE IndexingMC -----------------------------
(* The numbering life cycle as a state machine, explored exhaustively:      *)
(* external --ToInternal--> internal --Solve--> internal --ToExternal-->    *)
(* external --ToInternal--> ...  Every pattern of isolated buses, of        *)
(* generator positions and statuses and of branch ends and statuses over    *)
(* the constants is an initial state; it is also printed, so that the       *)
(* harness replays it on the real conversion routines.                      *)
EXTENDS Indexing, TLC, Json
CONSTANTS NB, NG, NL, Emitting
VARIABLES orig, cur, perm, state, solved, rounds
vars == <<orig, cur, perm, state, solved, rounds>>

\* external bus numbers: not consecutive, not sorted
BusNo(k) == <<8, 3, 10, 5, 1>>[k]
Row(a, n) == [j \in 1..n |-> a * 100 + j]
MkBus(t) == [k \in 1..NB |-> [Row(k, 3) EXCEPT ![BUSI] = BusNo(k), ![BTYPE] = t[k]]]
MkGen(g) == [k \in 1..NG |-> [Row(10 + k, 8) EXCEPT ![GBUS] = BusNo(g[k][1]), ![GSTAT] = g[k][2]]]
MkBranch(b) == [k \in 1..NL |-> [Row(20 + k, 11) EXCEPT ![FBUS] = BusNo(b[k][1]), ![TBUS] = BusNo(b[k][2]), ![BSTAT] = b[k][3]]]

Init ==
    /\ \E t \in [1..NB -> {1, 4}], g \in [1..NG -> (1..NB) \X {0, 1}],
          b \in [1..NL -> {x \in (1..NB) \X (1..NB) \X {0, 1} : x[1] < x[2]}] :
          /\ \E k \in 1..NB : t[k] = 1
          /\ orig = [bus |-> MkBus(t), gen |-> MkGen(g), branch |-> MkBranch(b)]
    /\ cur = orig /\ perm = <<>> /\ state = "e" /\ solved = {} /\ rounds = 0

\* every sorting permutation is a design choice the specification allows
GenOrders(c) == {p \in [1..Len(OnGen(c)) -> 1..Len(OnGen(c))] : IsGenOrder(c, p)}

ToInternal ==
    /\ state = "e" /\ rounds < 2
    /\ \E p \in GenOrders(cur) :
          /\ perm' = p
          /\ cur' = [bus |-> IntBus(cur), gen |-> IntGen(cur, p), branch |-> IntBranch(cur)]
          /\ orig' = cur
    /\ state' = "i" /\ rounds' = rounds + 1 /\ solved' = {}

\* the solver writes results into payload columns of internal tables
Solve ==
    /\ state = "i" /\ solved = {}
    /\ cur' = [bus |-> [k \in DOMAIN cur.bus |-> [cur.bus[k] EXCEPT ![3] = 5000 + k]],
               gen |-> [k \in DOMAIN cur.gen |-> [cur.gen[k] EXCEPT ![2] = 6000 + k]],
               branch |-> [k \in DOMAIN cur.branch |-> [cur.branch[k] EXCEPT ![3] = 7000 + k]]]
    /\ solved' = {"yes"}
    /\ UNCHANGED <<orig, perm, state, rounds>>

ToExternal ==
    /\ state = "i"
    /\ cur' = [bus |-> ExtBus(orig, cur.bus), gen |-> ExtGen(orig, perm, cur.gen),
               branch |-> ExtBranch(orig, cur.branch)]
    /\ state' = "e"
    /\ UNCHANGED <<orig, perm, solved, rounds>>

Next == ToInternal \/ Solve \/ ToExternal
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* design properties *)
InternalIsCanonical == state = "i" =>
    /\ \A k \in DOMAIN cur.bus : cur.bus[k][BUSI] = k - 1 /\ cur.bus[k][BTYPE] # ISOLATED
    /\ \A k \in DOMAIN cur.gen : cur.gen[k][GSTAT] > 0 /\ cur.gen[k][GBUS] \in 0..(Len(cur.bus) - 1)
    /\ \A k \in 1..(Len(cur.gen) - 1) : cur.gen[k][GBUS] <= cur.gen[k + 1][GBUS]
    /\ \A k \in DOMAIN cur.branch : /\ cur.branch[k][BSTAT] # 0
                                    /\ {cur.branch[k][FBUS], cur.branch[k][TBUS]} \subseteq 0..(Len(cur.bus) - 1)
NoResultNoChange == (state = "e" /\ solved = {} /\ rounds > 0) => cur = orig
OutOfServiceUntouched == (state = "e" /\ rounds > 0) =>
    /\ \A k \in DOMAIN cur.bus : k \notin Rng(OnBus(orig)) => cur.bus[k] = orig.bus[k]
    /\ \A k \in DOMAIN cur.gen : k \notin Rng(OnGen(orig)) => cur.gen[k] = orig.gen[k]
    /\ \A k \in DOMAIN cur.branch : k \notin Rng(OnBranch(orig)) => cur.branch[k] = orig.branch[k]
StructureKept == (state = "e") =>
    /\ \A k \in DOMAIN cur.bus : cur.bus[k][BUSI] = orig.bus[k][BUSI]
    /\ \A k \in DOMAIN cur.gen : cur.gen[k][GBUS] = orig.gen[k][GBUS] /\ cur.gen[k][7] = orig.gen[k][7]
    /\ \A k \in DOMAIN cur.branch : cur.branch[k][FBUS] = orig.branch[k][FBUS]
Emit == (Emitting /\ state = "e" /\ rounds = 0) => PrintT(<<"EMIT", ToJson(
    [t |-> [k \in 1..NB |-> orig.bus[k][BTYPE]],
     g |-> [k \in 1..NG |-> <<orig.gen[k][GBUS], orig.gen[k][GSTAT]>>],
     b |-> [k \in 1..NL |-> <<orig.branch[k][FBUS], orig.branch[k][TBUS], orig.branch[k][BSTAT]>>]])>>)
=============================================================================
