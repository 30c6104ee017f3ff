------------------------------- MODULE Calling -------------------------------
(* How an optimal power flow is called.  A problem is posed by a sequence of *)
(* positional arguments whose number decides what each one is, and by the    *)
(* fields of the case they name; the many forms are only ways of posing one  *)
(* problem.  A case is a dict, the name of a file, or six tables.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Roles == {"A", "l", "u", "N", "fparm", "H", "Cw", "z0", "zl", "zu", "userfcn", "ppopt"}
InCase == Roles \ {"ppopt"}        \* what a case may carry itself

Limits == <<"A", "l", "u">>
Costs  == <<"N", "fparm", "H", "Cw">>
Extra  == <<"z0", "zl", "zu">>
\* what the arguments after the case are, by how many there are
Form(k) == CASE k = 0 -> <<>>
             [] k = 1 -> <<"ppopt">>
             [] k = 2 -> <<"userfcn", "ppopt">>
             [] k = 3 -> Limits
             [] k = 4 -> Limits \o <<"ppopt">>
             [] k = 8 -> Limits \o <<"ppopt">> \o Costs
             [] k = 11 -> Limits \o <<"ppopt">> \o Costs \o Extra
Lengths == {0, 1, 2, 3, 4, 8, 11}
Sources == {"dict", "file", "tables"}
First(source) == IF source = "tables" THEN 6 ELSE 1
IsCall(source, n) == (n - First(source)) \in Lengths

Says(f, r) == r \in DOMAIN f /\ f[r] # ""       \* "" : an empty argument, as good as none
\* call and held: what the arguments and the case say of each role; together they pose one problem.
\* l and u mean nothing without their A, nor Cw without its N: these come from one place.
Group(r) == IF r \in {"A", "l", "u"} THEN "A" ELSE IF r \in {"N", "Cw"} THEN "N" ELSE r
Value(f, r) == IF Says(f, r) THEN f[r] ELSE ""
Posed(call, held, r) ==
    IF Says(call, Group(r)) THEN Value(call, r)
    ELSE IF r \in InCase /\ Says(held, Group(r)) THEN Value(held, r) ELSE ""
\* costs of no weight are a slip of the caller's
WellPosed(call, held) == Posed(call, held, "N") # "" => Posed(call, held, "Cw") # ""

-------------------------------------------------------------------------------
(* When the data of a call fits together.  d: nb, ng buses and units of the  *)
(* case, dc; rows/cols of A, N, H, fparm; lengths of l, u, Cw, z0, zl, zu,   *)
(* -1 standing for not given.                                                *)
States(d) == 2 * d.nb + 2 * d.ng
StatesDc(d) == d.nb + d.ng
\* user data of a DC problem may be laid out as for the AC one
OwnColumns(d, c) == IF d.dc /\ c < States(d) THEN StatesDc(d) ELSE States(d)
Fits(k, n) == k \in {-1, n}
\* a DC problem has no voltage magnitudes or reactive powers to limit or to pay for;
\* touch says whether the limits, or costs that are not all zero, speak of any
Consistent(d) ==
    LET nz == IF d.A.rows > 0 THEN d.A.cols - OwnColumns(d, d.A.cols) ELSE 0
    IN /\ d.dc => d.touch = "no"
       /\ d.A.rows > 0 => nz >= 0 /\ Fits(d.l, d.A.rows) /\ Fits(d.u, d.A.rows)
       /\ nz > 0 => Fits(d.z0, nz) /\ Fits(d.zl, nz) /\ Fits(d.zu, nz)
       /\ d.N.rows > 0 => /\ d.Cw = d.N.rows
                          /\ d.N.cols = (IF d.A.rows > 0 THEN d.A.cols ELSE OwnColumns(d, d.N.cols))
                          /\ d.H.rows # -1 => d.H.rows = d.N.rows /\ d.H.cols = d.N.rows
                          /\ d.fparm.rows # -1 => d.fparm.rows = d.N.rows /\ d.fparm.cols = 4
=============================================================================
