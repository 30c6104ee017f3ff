-------------------------------- MODULE Entry --------------------------------
(* Entry points: the run functions and the commands.                         *)
(*                                                                           *)
(* A session is a world of files and of what was written to the terminal;    *)
(* each call poses a problem (what is asked of which case under which        *)
(* options), answers it, writes the report to one place, the solved case to  *)
(* at most one file, and tells whether it succeeded.  Reports and solved     *)
(* cases are identified by the number of the call they come from.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Functions == <<"runpf", "rundcpf", "runopf", "rundcopf", "runuopf", "runduopf", "runopf_w_res">>
Task(f) == CASE f \in {"runpf", "rundcpf"} -> "pf" [] f \in {"runopf", "rundcopf"} -> "opf" [] f \in {"runuopf", "runduopf"} -> "uopf" [] f = "runopf_w_res" -> "res"
\* options by what they are: none given, plain, a DC model, others that change the answer, others that change the report only, an algorithm that does not exist
OptionKinds == {"none", "plain", "dc", "other", "report", "bad"}
Dc(f, o) == f \in {"rundcpf", "rundcopf", "runduopf"} \/ o = "dc"
\* what decides the answer; how the case is given, what is printed and where does not
Problem(c) == [task |-> Task(c.f), dc |-> Dc(c.f, c.o), case |-> c.case,
               opts |-> IF c.o \in {"none", "dc", "report"} THEN "plain" ELSE IF c.o = "other" THEN "other" ELSE c.o]
\* an algorithm that does not exist is refused where there is a choice of algorithms
Refused(c) == c.o = "bad" /\ ~(Task(c.f) = "pf" /\ Dc(c.f, c.o))
\* "hard" cases have no solution, of which a DC power flow knows nothing
Solvable(c) == c.case # "hard" \/ (Task(c.f) = "pf" /\ Dc(c.f, c.o))

Start == [n |-> 0, rep |-> [x \in {"r1", "r2"} |-> <<>>], sav |-> [x \in {"s.py", "s.mat", "t.py"} |-> 0], out |-> <<>>, err |-> 0]
SavedName(n) == IF n \in {"s.py", "s.mat", "t.py"} THEN n ELSE n \o ".py"
\* rep: "" the terminal, "bad" a place that cannot be written; sav: "" nowhere
Do(s, c) ==
    LET k == s.n + 1 IN
    IF Refused(c) THEN [s EXCEPT !.n = k]
    ELSE [s EXCEPT !.n = k,
                   !.out = IF c.rep = "" THEN Append(@, k) ELSE @,
                   !.err = IF c.rep = "bad" THEN @ + 1 ELSE @,
                   !.rep = IF c.rep \in DOMAIN @ THEN [@ EXCEPT ![c.rep] = Append(@, k)] ELSE @,
                   !.sav = IF c.sav = "" THEN @ ELSE [@ EXCEPT ![SavedName(c.sav)] = k]]

(* ------------------------------ command lines ---------------------------- *)
(* an argument: [k |-> kind, n |-> name of an option, v |-> value]           *)
(*   "case" a file name   "-c" built-in case   "-o" "-s" names   "-u" "-r"   *)
(*   "opt" an option with its value                                          *)
(*   "wrong" something that is no option, or no value of one                 *)
Has(args, k) == \E i \in DOMAIN args : args[i].k = k
\* the last of several counts
Last(args, k, default) == IF Has(args, k) THEN args[CHOOSE i \in DOMAIN args : args[i].k = k /\ \A j \in DOMAIN args : args[j].k = k => j <= i].v ELSE default
Count(args, k) == Cardinality({i \in DOMAIN args : args[i].k = k})
\* only opf knows -u and -r, and not both at a time
Malformed(cmd, args) == \/ Has(args, "wrong") \/ Count(args, "case") > 1
                        \/ (cmd = "pf" /\ (Has(args, "-u") \/ Has(args, "-r")))
                        \/ (Has(args, "-u") /\ Has(args, "-r"))
Meaning(cmd, args) ==
    [f |-> IF cmd = "pf" THEN "runpf" ELSE IF Has(args, "-u") THEN "runuopf" ELSE IF Has(args, "-r") THEN "runopf_w_res" ELSE "runopf",
     case |-> Last(args, "case", Last(args, "-c", "case9")),
     rep |-> Last(args, "-o", ""), sav |-> Last(args, "-s", ""),
     \* the options named, each with its last value
     opts |-> LET names == {args[i].n : i \in {i \in DOMAIN args : args[i].k = "opt"}}
              IN [x \in names |-> args[CHOOSE i \in DOMAIN args : args[i].k = "opt" /\ args[i].n = x /\
                                        \A j \in DOMAIN args : (args[j].k = "opt" /\ args[j].n = x) => j <= i].v]]
\* exit status
Code(malformed, success) == IF malformed THEN 2 ELSE IF success THEN 0 ELSE 2
==============================================================================
