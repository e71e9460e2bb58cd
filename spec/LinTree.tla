------------------------------- MODULE LinTree ------------------------------
(* Judges histories of concurrent calls recorded from the real trees against  *)
(* PrefixTree, in the way LinTable does for tables. Several trees (a tree and  *)
(* its clone) may take part; a clone made inside the history must have had the *)
(* contents the original has at its place in the order.                        *)
EXTENDS PrefixTree, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, left, m
vars == <<h, left, m>>

Lookup(q) == [x \in {q[k][1] : k \in 1..Len(q)} |-> q[CHOOSE k \in 1..Len(q) : q[k][1] = x][2]]
Trees(q) == [t \in {q[k][1] : k \in 1..Len(q)} |-> Lookup(q[CHOOSE k \in 1..Len(q) : q[k][1] = t][2])]

(* the contents seen, listed, are those of f *)
SameAs(q, f) == Len(q) = Cardinality(DOMAIN f) /\ \A k \in 1..Len(q) : q[k][1] \in DOMAIN f /\ f[q[k][1]] = q[k][2]
SameTrees(q, t) == Len(q) = Cardinality(DOMAIN t) /\ \A k \in 1..Len(q) : q[k][1] \in DOMAIN t /\ SameAs(q[k][2], t[q[k][1]])

Minimal(k) == \A j \in left : j = k \/ Log[h].calls[j].ret > Log[h].calls[k].inv

Init == \E g \in 1..Len(Log) :
          /\ Log[g].op = "hist" /\ Log[g].stuck = ""
          /\ h = g /\ left = 1..Len(Log[g].calls) /\ m = Trees(Log[g].init)
Next == \E k \in left :
          LET e == Log[h].calls[k] c == [w |-> Log[h].w, n |-> Log[h].n] IN
          /\ Minimal(k)
          /\ RetOK(c, m, e, e.r)
          /\ e.op = "Clone" => SameAs(e.r.st, m[e.o])
          /\ h' = h /\ left' = left \ {k}
          /\ m' = IF e.op = "Clone" THEN m ELSE Effect(c, m, e, e.r)
          /\ IF left' = {} /\ SameTrees(Log[h].final, m') THEN PrintT(<<"LIN", h>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
