------------------------------ MODULE CaseFiles ------------------------------
(* Cases in memory and in files.                                             *)
(*                                                                           *)
(* The history part: the caller holds cases (a sequence of values), a        *)
(* directory holds files for one stem "a"; the value of a case is abstract   *)
(* (a token that changes whenever its holder edits it).  Loading copies,     *)
(* saving copies; nothing else is touched.                                   *)
(* The data part: what a table becomes when an old-version case is read, and *)
(* what of a case a file keeps and how precisely.                            *)
EXTENDS Integers, Sequences, FiniteSets, Dec

(* ------------------------------- histories ------------------------------- *)
Names == {"a", "a.py", "a.mat"}
Paths == {"a.py", "a.mat"}
\* what a file holds: nothing there, text that is not a case, a case that lacks a table, or a case
Content == {"none", "broken", "lacking"}
\* has: "all" (costs and areas), "gencost" (costs only), "pf" (neither)
Value(has, t) == [has |-> has, t |-> t]
Holds(c) == [is |-> "case", v |-> c]
Is(k) == [is |-> k]

SavedName(n) == IF n \in Paths THEN n ELSE "a.py"   \* the extension is added if there is none
\* the file a request reads, and the code if it is not there
Resolve(fs, n) == IF n # "a" THEN n ELSE IF fs["a.mat"].is # "none" THEN "a.mat" ELSE "a.py"
Missing(n) == CASE n = "a" -> 2 [] n = "a.mat" -> 3 [] n = "a.py" -> 4

\* how the result is asked for: as a case, or as separate tables with or without areas and costs
Requests == {"case", "tables", "tables_gencost", "tables_pf"}
Enough(v, req) == CASE req = "tables" -> v.has = "all" [] req = "tables_gencost" -> v.has # "pf" [] OTHER -> TRUE
\* separate tables are those asked for, no others
Given(v, req) == CASE req = "tables_gencost" -> Value("gencost", v.t) [] req = "tables_pf" -> Value("pf", v.t) [] OTHER -> v
Ok(v) == [code |-> 0, v |-> v]
Code(k) == [code |-> k]
FromCase(v, req) == IF Enough(v, req) THEN Ok(Given(v, req)) ELSE Code(5)
FromFile(fs, n, req) ==
    LET f == fs[Resolve(fs, n)] IN
    CASE f.is = "none" -> Code(Missing(n))
      [] f.is \in {"broken", "lacking"} -> Code(5)
      [] f.is = "case" -> FromCase(f.v, req)

\* state: mem (cases held), fs (files); step a; outcome of the last step
Outcome(st, a) ==
    CASE a.op = "load" -> FromFile(st.fs, a.n, a.req)
      [] a.op = "take" -> FromCase(st.mem[a.k], a.req)          \* load from a case in memory
      [] a.op = "other" -> Code(1)                              \* neither a name nor a case
      [] a.op = "save" -> [code |-> 0, name |-> SavedName(a.n)]
      [] a.op \in {"put", "edit"} -> Code(0)
Next1(st, a) ==
    CASE a.op \in {"load", "take"} ->
            LET o == Outcome(st, a) IN IF o.code = 0 THEN [st EXCEPT !.mem = Append(@, o.v)] ELSE st
      [] a.op = "save" -> [st EXCEPT !.fs[SavedName(a.n)] = Holds(st.mem[a.k])]
      [] a.op = "put" -> [st EXCEPT !.fs[a.n] = Is(a.is)]
      [] a.op = "edit" -> [st EXCEPT !.mem[a.k].t = @ + 1]
      [] OTHER -> st
Start == [mem |-> <<Value("all", 0), Value("pf", 100), Value("gencost", 200)>>, fs |-> [p \in Paths |-> Is("none")]]

(* --------------------------- old-version tables --------------------------- *)
\* a row of an old-version table in the current layout: gen gains the eleven columns of the
\* capability curve and ramps before the multipliers, branch the two angle limits before the
\* flows and the two angle multipliers after the line multipliers
Zeros(n) == [i \in 1..n |-> 0]
GenOf1(r) == SubSeq(r, 1, 10) \o Zeros(11) \o (IF Len(r) >= 14 THEN SubSeq(r, 11, 14) ELSE <<>>)
BranchOf1(r) == SubSeq(r, 1, 11) \o <<-360, 360>>
                \o (IF Len(r) >= 17 THEN SubSeq(r, 12, 17) \o Zeros(2)
                    ELSE IF Len(r) >= 15 THEN SubSeq(r, 12, 15) ELSE <<>>)
\* a case that does not say is of the old version when its generator table is too narrow for the new
Old(version, gen) == IF version = "none" THEN Len(gen[1]) < 21 ELSE version = "1"

(* ------------------------- what a saved case keeps ------------------------ *)
\* a text file keeps nine digits of the data and four decimals of the results (columns from the
\* given one on); a MAT file keeps everything
FirstResult(t) == CASE t = "bus" -> 14 [] t = "gen" -> 22 [] t = "branch" -> 14 [] OTHER -> 1000000
Near(a, b, tol) == IF DFinite(a) /\ DFinite(b) THEN DLe(DAbs(DSub(a, b)), tol) ELSE DSame(a, b)
Tol(t, j, a) == IF j >= FirstResult(t) THEN "5.0000001e-5" ELSE IF DFinite(a) THEN DMul("5.0000001e-9", DAbs(a)) ELSE 0
CellKept(text, t, j, a, b) == IF text THEN Near(a, b, Tol(t, j, a)) ELSE DSame(a, b)
\* the columns of a table: cost rows need no more than the longest of them uses
RowUse(r) == 4 + (IF DEq(r[1], 1) THEN 2 ELSE 1) * DInt(r[4])
WidthKept(text, t, a) == IF text /\ t = "gencost" THEN CHOOSE w \in {RowUse(a[i]) : i \in DOMAIN a} : \A i \in DOMAIN a : RowUse(a[i]) <= w
                         ELSE Len(a[1])
TableKept(text, t, a, b) == Len(a) = Len(b) /\ (a # <<>> => LET w == WidthKept(text, t, a) IN
    \A i \in DOMAIN a : Len(b[i]) = w /\ \A j \in 1..w : CellKept(text, t, j, a[i][j], b[i][j]))
VectorKept(text, a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : CellKept(text, "vector", 1, a[i], b[i])
\* a sparse matrix: its size and its entries <<i, j, x>> in order of place
SparseKept(text, a, b) == a.m = b.m /\ a.n = b.n /\ Len(a.s) = Len(b.s) /\ \A k \in DOMAIN a.s :
    a.s[k][1] = b.s[k][1] /\ a.s[k][2] = b.s[k][2] /\ CellKept(text, "sparse", 1, a.s[k][3], b.s[k][3])

Tables == {"bus", "gen", "branch", "areas", "gencost", "fparm"}
Vectors == {"l", "u", "Cw", "z0", "zl", "zu"}
Sparse == {"A", "N", "H"}
\* optional data is kept when there is any; bounds belong to A, cost data to N
NonEmpty(c, f) == f \in DOMAIN c /\ IF f \in Sparse THEN c[f].m > 0 ELSE c[f] # <<>>
Kept(c) == {f \in {"bus", "gen", "branch", "areas", "gencost", "A", "N", "z0", "zl", "zu"} : NonEmpty(c, f)}
           \cup {f \in {"l", "u"} : NonEmpty(c, f) /\ NonEmpty(c, "A")}
           \cup {f \in {"H", "fparm", "Cw"} : NonEmpty(c, f) /\ NonEmpty(c, "N")}
Differs(text, c, d) ==
    {f \in (DOMAIN d \cap (Tables \cup Vectors \cup Sparse)) \ Kept(c) : NonEmpty(d, f)}
    \cup {f \in Kept(c) : f \notin DOMAIN d \/ ~(CASE f \in Tables -> TableKept(text, f, c[f], d[f])
                                                   [] f \in Vectors -> VectorKept(text, c[f], d[f])
                                                   [] f \in Sparse -> SparseKept(text, c[f], d[f]))}
    \cup (IF CellKept(text, "base", 1, c.baseMVA, d.baseMVA) THEN {} ELSE {"baseMVA"})
=============================================================================
