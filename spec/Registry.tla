------------------------------ MODULE Registry ------------------------------
(* The registry of user callbacks: stage -> sequence of registrations        *)
(* [f |-> function, args |-> what it is called with].  Functions and argument *)
(* values are opaque names; "[]" is what a callback registered without an    *)
(* argument is given.                                                        *)
EXTENDS Integers, Sequences, FiniteSets

Stages == <<"ext2int", "formulation", "int2ext", "printpf", "savecase">>
StageSet == {Stages[k] : k \in DOMAIN Stages}
Extensions == {"reserves", "iflims", "dcline"}
Empty == [s \in StageSet |-> <<>>]

\* the callback of extension x at stage s
Callback(x, s) == x \o "/" \o s
Registered(r, s, f) == \E k \in DOMAIN r[s] : r[s][k].f = f
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Latest(q, f) == CHOOSE k \in DOMAIN q : q[k].f = f /\ \A j \in DOMAIN q : q[j].f = f => j <= k

AddOk(r, s, f, multi) == s \in StageSet /\ (multi \/ ~Registered(r, s, f))
Add(r, s, f, args, multi) == IF AddOk(r, s, f, multi) THEN [r EXCEPT ![s] = Append(@, [f |-> f, args |-> args])] ELSE r
Remove(r, s, f) == IF s \in StageSet /\ Registered(r, s, f) THEN [r EXCEPT ![s] = Without(@, Latest(@, f))] ELSE r
On(r, x) == [s \in StageSet |-> Add(r, s, Callback(x, s), "[]", FALSE)[s]]
Off(r, x) == [s \in StageSet |-> Remove(r, s, Callback(x, s))[s]]

\* op is one of add, remove, toggle, run; mode is the second argument of a toggle
Apply(r, a) == CASE a.op = "add" -> Add(r, a.stage, a.f, a.args, a.multi)
                 [] a.op = "remove" -> Remove(r, a.stage, a.f)
                 [] a.op = "toggle" -> IF a.mode = "on" THEN On(r, a.f) ELSE IF a.mode = "off" THEN Off(r, a.f) ELSE r
                 [] a.op = "run" -> r
\* requests that cannot be honoured are reported (a message or an exception)
Reported(r, a) == \/ a.op = "add" /\ ~AddOk(r, a.stage, a.f, a.multi)
                  \/ a.op = "toggle" /\ a.mode \notin {"on", "off"}
                  \/ a.op = "toggle" /\ a.mode = "on" /\ \E s \in StageSet : Registered(r, s, Callback(a.f, s))

\* what running a stage does: the calls <<function, argument, input>>, each fed with the
\* value of the one before; Out(f, args, x) is what f returns
Runs(r, s) == IF s \in StageSet THEN r[s] ELSE <<>>
=============================================================================
