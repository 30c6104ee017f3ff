------------------------------- MODULE Caller -------------------------------
(* The data in a caller's hands.  Routines are functions: what they give     *)
(* depends on the values they are given and nothing else, they change none   *)
(* of them, and what they give is the caller's own: writing into one thing   *)
(* changes no other.  Values are terms; two things of the same value must be *)
(* indistinguishable, whenever they came about.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* K: a case, T: the same one in internal form, O: options; then results in the order they came
Given == <<"K", "T", "O">>
Start == [val |-> <<"K0", "T0", "O0">>, kind |-> <<"case", "internal", "options">>, spoilt |-> {}]

\* a routine "case" gives what can itself be solved, a routine "value" anything else
CanCall(s, c) == c.on \in DOMAIN s.val /\ c.on \notin s.spoilt /\ s.kind[c.on] = "case"
Result(s, c) == c.r \o "(" \o s.val[c.on] \o "," \o s.val[2] \o "," \o s.val[3] \o ")"
Do(s, c) ==
    CASE c.op = "call" -> [s EXCEPT !.val = Append(@, Result(s, c)), !.kind = Append(@, IF c.gives = "case" THEN "case" ELSE "value")]
      \* the caller changes a few numbers of a thing still meant to be used
      [] c.op = "edit" -> [s EXCEPT !.val[c.on] = "edited(" \o @ \o ")"]
      \* the caller overwrites everything in a result
      [] c.op = "spoil" -> [s EXCEPT !.val[c.on] = "spoilt(" \o ToString(c.on) \o ")", !.spoilt = @ \cup {c.on}]
=============================================================================
