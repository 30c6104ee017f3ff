------------------------------- MODULE EntryMC -------------------------------
(* Sessions of calls, and command lines; all of them are replayed.           *)
EXTENDS Entry, Json
CONSTANTS Depth, Fs, Os, Reps, Savs, Srcs, Cases, MaxArgs, Emit
VARIABLES s, h, line
vars == <<s, h, line>>
Rng(q) == {q[i] : i \in DOMAIN q}

Args == {[k |-> "case", n |-> "", v |-> "file"], [k |-> "-c", n |-> "", v |-> "case6ww"], [k |-> "-c", n |-> "", v |-> "case30_userfcns"], [k |-> "-o", n |-> "", v |-> "r1"], [k |-> "-s", n |-> "", v |-> "s.mat"],
         [k |-> "-u", n |-> "", v |-> ""], [k |-> "-r", n |-> "", v |-> ""], [k |-> "opt", n |-> "out_bus", v |-> "no"], [k |-> "opt", n |-> "out_all", v |-> "0"],
         [k |-> "opt", n |-> "out_all", v |-> "1"], [k |-> "wrong", n |-> "", v |-> ""]}
Fs1 == Rng(Functions)
Calls == {[f |-> f, o |-> o, rep |-> r, sav |-> v, src |-> q, case |-> k] : f \in Fs, o \in Os, r \in Reps, v \in Savs, q \in Srcs, k \in Cases}
Init == s = Start /\ h = <<>> /\ line = [cmd |-> "", args |-> <<>>]
Call == /\ line.cmd = "" /\ Len(h) < Depth
        /\ \E c \in Calls : /\ (c.src \in DOMAIN s.sav => s.sav[c.src] # 0)
                          /\ s' = Do(s, c) /\ h' = Append(h, c) /\ UNCHANGED line
Type == /\ h = <<>> /\ MaxArgs > 0
        /\ \/ line.cmd = "" /\ \E cmd \in {"pf", "opf"} : line' = [cmd |-> cmd, args |-> <<>>]
           \/ line.cmd # "" /\ Len(line.args) < MaxArgs /\ \E a \in Args : line' = [line EXCEPT !.args = Append(@, a)]
        /\ UNCHANGED <<s, h>>
Next == Call \/ Type
Spec == Init /\ [][Next]_vars

\* every report is in one place, none where the place cannot be written or the call was refused
Places == <<s.out, s.rep["r1"], s.rep["r2"]>>
Reported == \A i \in DOMAIN h : Cardinality({p \in 1..3 : i \in Rng(Places[p])}) = (IF Refused(h[i]) \/ h[i].rep = "bad" THEN 0 ELSE 1)
\* reports come in the order of the calls
InOrder == \A p \in 1..3 : \A i, j \in DOMAIN Places[p] : i < j => Places[p][i] < Places[p][j]
\* reports are only ever added; a call writes what it names
Added == [][h' # h => \A x \in DOMAIN s.rep : \E t \in {<<>>, <<s'.n>>} : s'.rep[x] = s.rep[x] \o t]_vars
Frame == [][h' # h => /\ \A x \in DOMAIN s.rep : s'.rep[x] # s.rep[x] => h'[Len(h')].rep = x
                      /\ \A x \in DOMAIN s.sav : s'.sav[x] # s.sav[x] => SavedName(h'[Len(h')].sav) = x]_vars
\* entry points that differ in the model only: the DC one is the other one under the option
DcVariant == \A c \in Calls : c.o = "dc" => \A p \in {<<"runpf", "rundcpf">>, <<"runopf", "rundcopf">>, <<"runuopf", "runduopf">>} :
                 c.f = p[1] => /\ Problem(c) = Problem([c EXCEPT !.f = p[2]])
                               /\ Problem(c) = Problem([c EXCEPT !.f = p[2], !.o = "plain"])
\* how options are written in a line does not matter, other than that later ones count
Swapped(a, i) == [a EXCEPT ![i] = a[i + 1], ![i + 1] = a[i]]
Orderly == \A i \in 1..(Len(line.args) - 1) :
    LET b == Swapped(line.args, i) IN
    /\ Malformed(line.cmd, line.args) <=> Malformed(line.cmd, b)
    /\ (~Malformed(line.cmd, b) /\ (line.args[i].k # line.args[i + 1].k \/ (line.args[i].k = "opt" /\ line.args[i].n # line.args[i + 1].n)))
         => Meaning(line.cmd, line.args) = Meaning(line.cmd, b)
Emits == /\ (Emit /\ Len(h) = Depth) => PrintT(<<"EMIT", ToJson([h |-> h])>>)
         /\ (Emit /\ line.cmd # "") => PrintT(<<"EMIT", ToJson([cmd |-> line.cmd, args |-> line.args])>>)
==============================================================================
