----------------------------- MODULE CaseFilesMC -----------------------------
(* Every history of loading, saving, editing and of files appearing, up to a *)
(* depth; those that end with a load are printed and replayed.               *)
EXTENDS CaseFiles, TLC, Json
CONSTANTS Depth, Emit
VARIABLES st, h, out
vars == <<st, h, out>>
Init == st = Start /\ h = <<>> /\ out = [code |-> 0]
Actions ==
    {[op |-> "load", n |-> n, req |-> r] : n \in Names, r \in Requests}
    \cup {[op |-> "take", k |-> k, req |-> r] : k \in DOMAIN st.mem, r \in {"case", "tables"}}
    \cup {[op |-> "save", k |-> k, n |-> n] : k \in DOMAIN st.mem, n \in Names}
    \cup {[op |-> "put", n |-> n, is |-> i] : n \in Paths, i \in Content}
    \cup {[op |-> "edit", k |-> k] : k \in DOMAIN st.mem}
    \cup {[op |-> "other"]}
\* a history is of interest up to its last load: the last step of a full one is a load
Next == /\ Len(h) < Depth
        /\ \E a \in Actions : /\ Len(h) = Depth - 1 => a.op \in {"load", "take"}
                              /\ st' = Next1(st, a) /\ h' = Append(h, a) /\ out' = Outcome(st, a)
Spec == Init /\ [][Next]_vars
\* loading gives a case or a documented code, never both or neither
Codes == out.code \in 0..5
\* only its own holder changes a case in memory
Isolated == [][\A k \in DOMAIN st.mem : st'.mem[k] # st.mem[k] => h'[Len(h')].op = "edit" /\ h'[Len(h')].k = k]_vars
\* only saving or the outside world changes a file
FilesStay == [][\A p \in Paths : st'.fs[p] # st.fs[p] => h'[Len(h')].op \in {"save", "put"}]_vars
\* what was saved is what is found, unless a MAT file of the same stem hides it
SavedIsFound == [][h'[Len(h')].op = "save" => LET a == h'[Len(h')] IN
    FromFile(st'.fs, SavedName(a.n), "case") = Ok(st.mem[a.k])
    /\ (a.n = "a" /\ st.fs["a.mat"].is = "none" => FromFile(st'.fs, "a", "case") = Ok(st.mem[a.k]))]_vars
Emits == (Emit /\ Len(h) = Depth) => PrintT(<<"EMIT", ToJson(h)>>)
=============================================================================
