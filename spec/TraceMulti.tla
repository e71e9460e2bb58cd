------------------------------ MODULE TraceMulti -----------------------------
(* Judges recorded executions of tree.Tree[T] against MultiTree. The contents  *)
(* are read with the iterator, which names no prefixes: a value's class starts *)
(* with the prefix it was given for (written by the driver), so that an        *)
(* observation is a sequence of lists, to be matched with the expected one.    *)
EXTENDS MultiTree, Json, IOUtils

Log  == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
VARIABLES i, m, lost
vars == <<i, m, lost>>

Panicked(e) == "panic" \in DOMAIN e.r
Listing(s) == LET ps == SortBits(DOMAIN s) IN [k \in 1..Len(ps) |-> s[ps[k]]]
(* e.st: <<handle, listing>> for each tree whose listing changed *)
Changed(e) == {e.st[k][1] : k \in 1..Len(e.st)}
Obs(e, h)  == e.st[CHOOSE k \in 1..Len(e.st) : e.st[k][1] = h][2]
Agrees(e, t) == \A h \in DOMAIN t :
                  IF h \in Changed(e) THEN Obs(e, h) = Listing(t[h])
                  ELSE h \in DOMAIN m /\ Listing(m[h]) = Listing(t[h])

(* the same calls over and over, see TraceTable *)
RECURSIVE Round(_, _, _, _), Runs(_, _, _)
Round(a, calls, rs, k) ==
  IF k > Len(calls) THEN a
  ELSE Round([ok |-> a.ok /\ RetOK(a.m, calls[k], rs[k]), m |-> Effect(a.m, calls[k])], calls, rs, k + 1)
Runs(a, e, k) ==
  IF k > Len(e.r.runs) THEN a
  ELSE LET u == e.r.runs[k]
           b == Round(a, e.calls, u.rs, 1)
           d == Round(b, e.calls, u.rs, 1)
       IN Runs(IF u.n = 1 THEN b ELSE [ok |-> d.ok /\ d.m = b.m, m |-> d.m], e, k + 1)
Churned(e) == Runs([ok |-> TRUE, m |-> m], e, 1)

ResultOK(e) == IF e.op = "Churn" THEN Churned(e).ok ELSE RetOK(m, e, e.r)
Expected(e) == IF e.op = "Churn" THEN Churned(e).m ELSE Effect(m, e)
Judge(e) == IF Panicked(e) THEN {"panic"}
            ELSE (IF ResultOK(e) THEN {} ELSE {"result"})
                 \cup (IF ~e.obs \/ Agrees(e, Expected(e)) THEN {} ELSE {"effect"})
Report(n, e) == LET j == Judge(e) IN IF j = {} THEN TRUE ELSE PrintT(<<"VIOL", PROP, n, e.op, j>>)

Init == \E n \in 1..Len(Log) :
          /\ Log[n].op = "new" /\ i = n /\ m = (1 :> << >>) /\ lost = Panicked(Log[n])
          /\ IF Panicked(Log[n]) THEN PrintT(<<"VIOL", PROP, n, "new", {"panic"}>>) ELSE TRUE
(* after a violation the rest of that history is not judged (its true contents are not known) *)
Next == LET n == i + 1 IN
        /\ n <= Len(Log) /\ Log[n].op # "new"
        /\ i' = n
        /\ LET e == Log[n] IN
           IF lost THEN UNCHANGED <<m, lost>>
           ELSE /\ Report(n, e)
                /\ lost' = (Judge(e) # {})
                /\ m' = IF lost' THEN m ELSE Expected(e)
Spec == Init /\ [][Next]_vars
=============================================================================
