------------------------------ MODULE LinTable ------------------------------
(* Judges histories of concurrent calls recorded from the real tables. A      *)
(* history is explained when its calls can be put in one order, consistent     *)
(* with real time (a call that returned before another was invoked comes      *)
(* first), in which IdTable allows every result and ends in the contents seen  *)
(* after all threads ended. Each history is one initial state; a transition    *)
(* places one more call. Explained histories print LIN; the rest have no       *)
(* explanation.                                                               *)
EXTENDS IdTable, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, left, s
vars == <<h, left, s>>

Lookup(q) == [x \in {q[k][1] : k \in 1..Len(q)} |-> q[CHOOSE k \in 1..Len(q) : q[k][1] = x][2]]
(* the contents seen, listed, are those of f *)
SameAs(q, f) == Len(q) = Cardinality(DOMAIN f) /\ \A k \in 1..Len(q) : q[k][1] \in DOMAIN f /\ f[q[k][1]] = q[k][2]
Cfg(g) == [kind |-> g.kind, n |-> g.n, w |-> g.w, cap |-> g.cap]

(* a call may come next when no call still to be placed returned before it began *)
Minimal(k) == \A j \in left : j = k \/ Log[h].calls[j].ret > Log[h].calls[k].inv


Init == \E g \in 1..Len(Log) :
          /\ Log[g].op = "hist" /\ Log[g].stuck = ""
          /\ h = g /\ left = 1..Len(Log[g].calls) /\ s = Lookup(Log[g].init)
Next == \E k \in left :
          LET e == Log[h].calls[k] c == Cfg(Log[h]) IN
          /\ Minimal(k)
          /\ RetOK(c, s, e, e.r)
          /\ h' = h /\ left' = left \ {k}
          /\ s' = Effect(c, s, e, e.r)
          /\ IF left' = {} /\ SameAs(Log[h].final, s') THEN PrintT(<<"LIN", h>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
