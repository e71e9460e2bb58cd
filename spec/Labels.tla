------------------------------- MODULE Labels -------------------------------
(* Label sets and label selectors (the query language of GetByLabel and      *)
(* ReleaseByLabel). A value is [l |-> sequence of <<key, value>>, d |-> token] *)
EXTENDS Integers, Sequences

HasKey(l, k) == \E i \in 1..Len(l) : l[i][1] = k
ValOf(l, k)  == l[CHOOSE i \in 1..Len(l) : l[i][1] = k][2]

ReqMatches(q, l) ==
  LET In == HasKey(l, q.k) /\ \E j \in 1..Len(q.vs) : q.vs[j] = ValOf(l, q.k)
  IN CASE q.op \in {"in", "eq"}      -> In
       [] q.op \in {"notin", "neq"}  -> ~In       \* an absent key satisfies it
       [] q.op = "ex"                -> HasKey(l, q.k)
       [] q.op = "nex"               -> ~HasKey(l, q.k)

(* a selector is the conjunction of its requirements; "none" matches nothing *)
Matches(sel, l) == sel.t # "none" /\ \A i \in 1..Len(sel.rs) : ReqMatches(sel.rs[i], l)
=============================================================================
