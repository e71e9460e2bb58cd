------------------------------ MODULE TraceTree -----------------------------
(* Judges recorded executions of the real trees against PrefixTree (see       *)
(* TraceTable for the scheme).                                                *)
EXTENDS PrefixTree, Json, IOUtils

Log  == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES i, c, m, held
vars == <<i, c, m, held>>

Lookup(q) == [x \in {q[k][1] : k \in 1..Len(q)} |-> q[CHOOSE k \in 1..Len(q) : q[k][1] = x][2]]
Panicked(e) == "panic" \in DOMAIN e.r
Muts  == {"Claim", "Update", "Release", "ClaimFree", "ClaimRange", "ReleaseByLabel"}
Reads == {"Get", "Children", "Parents", "GetByLabel", "GetAll", "Iterate", "Size"}
HeldOps == {"ReadHeld", "Scribble"}

(* e.d: for each tree whose contents changed, <<handle, set, deleted>> *)
ApplyOne(s, set, del) ==
  LET D == {del[k] : k \in 1..Len(del)} f == Lookup(set) IN f @@ [x \in DOMAIN s \ D |-> s[x]]
Apply(t, e) ==
  LET H == {e.d[k][1] : k \in 1..Len(e.d)}
      ch(h) == e.d[CHOOSE k \in 1..Len(e.d) : e.d[k][1] = h]
      old(h) == IF h \in DOMAIN t THEN t[h] ELSE << >>
  IN [h \in DOMAIN t \cup H |-> IF h \in H THEN ApplyOne(old(h), ch(h)[2], ch(h)[3]) ELSE t[h]]

(* one line for many calls of the same kind on distinct prefixes, see TraceTable *)
B(p, k) == IF k < 1 THEN 0 ELSE IF Bit(p, k) = "1" THEN 1 ELSE 0
ManyVal(e, p) == LET n == Len(p) IN e.vs[((n + 4 * B(p, n - 2) + 2 * B(p, n - 1) + B(p, n)) % Len(e.vs)) + 1]
ManyRetOK(e) ==
  LET s == m[e.o] IN
  /\ Len(e.r.q) = Len(e.ps)
  /\ \A k \in 1..Len(e.ps) :
       LET p == e.ps[k] IN
       IF e.of = "Get" THEN (IF p \in DOMAIN s THEN e.r.q[k] = <<[p |-> p, v |-> s[p]]>> ELSE e.r.q[k] = << >>)
       ELSE e.r.q[k] = InSpace(c, p)
ManyEffect(e) ==
  LET s == m[e.o]
      P == {p \in {e.ps[k] : k \in 1..Len(e.ps)} : InSpace(c, p)} IN
  CASE e.of \in {"Claim", "Update"} -> [m EXCEPT ![e.o] = [q \in DOMAIN s \cup P |-> IF q \in P THEN ManyVal(e, q) ELSE s[q]]]
    [] e.of = "Release" -> [m EXCEPT ![e.o] = Without(s, P)]
    [] OTHER -> m

(* the same calls over and over, see TraceTable *)
RECURSIVE Round(_, _, _, _), Runs(_, _, _)
Round(a, calls, rs, k) ==
  IF k > Len(calls) THEN a
  ELSE Round([ok |-> a.ok /\ RetOK(c, a.m, calls[k], rs[k]), m |-> Effect(c, a.m, calls[k], rs[k])], calls, rs, k + 1)
Runs(a, e, k) ==
  IF k > Len(e.r.runs) THEN a
  ELSE LET u == e.r.runs[k]
           b == Round(a, e.calls, u.rs, 1)
           d == Round(b, e.calls, u.rs, 1)
       IN Runs(IF u.n = 1 THEN b ELSE [ok |-> d.ok /\ d.m = b.m, m |-> d.m], e, k + 1)
Churned(e) == Runs([ok |-> TRUE, m |-> m], e, 1)

PropOps ==
  [P01 |-> {"Get", "Claim", "Update", "Release"}, P02 |-> {"GetAll", "Iterate", "Size"},
   P03 |-> {"Children", "Parents"}, P04 |-> {"ClaimFree"}, P05 |-> {"ClaimRange"},
   P06 |-> {"ReleaseByLabel"}, P07 |-> {"Clone"}, T09 |-> {"GetByLabel"}, T10 |-> HeldOps, T11 |-> Muts]
Relevant(e) == \/ e.op \in PropOps[PROP]
               \/ e.op = "Many" /\ (e.of \in PropOps[PROP] \/ e.of = "Get")
               \/ e.op = "Churn" /\ \E k \in 1..Len(e.calls) : e.calls[k].op \in PropOps[PROP]
               \/ e.op = "obs"
               \/ PROP = "P07" /\ Cardinality(DOMAIN m) > 1 /\ e.op \notin HeldOps

Expected(e) == IF e.op = "Many" THEN ManyEffect(e)
               ELSE IF e.op = "Churn" THEN Churned(e).m
               ELSE IF e.op \in HeldOps \cup {"obs"} THEN m ELSE Effect(c, m, e, e.r)
ObsState(e) == [h \in {e.r.st[k][1] : k \in 1..Len(e.r.st)} |->
                  Lookup(e.r.st[CHOOSE k \in 1..Len(e.r.st) : e.r.st[k][1] = h][2])]
(* a clone starts out empty in the eyes of the observer: its whole contents are in e.d *)
Seen(e) == IF e.op = "obs" THEN ObsState(e)
           ELSE IF ~e.obs THEN Expected(e)
           ELSE Apply(IF e.op = "Clone" THEN (e.o2 :> << >>) @@ m
                      ELSE IF e.op = "Churn" THEN [h \in DOMAIN m \cup {e.new[k] : k \in 1..Len(e.new)} |->
                                                    IF h \in DOMAIN m THEN m[h] ELSE << >>]
                      ELSE m, e)

HeldRetOK(e) == e.op = "Scribble" \/ e.r.es = held[e.h]
Judge(e) ==
  IF Panicked(e) THEN {"panic"}
  ELSE (IF e.op \in HeldOps THEN (IF HeldRetOK(e) THEN {} ELSE {"result"})
        ELSE IF e.op = "Many" THEN (IF ManyRetOK(e) THEN {} ELSE {"result"})
        ELSE IF e.op = "Churn" THEN (IF Churned(e).ok THEN {} ELSE {"result"})
        ELSE IF e.op = "obs" \/ PROP = "T11" THEN {}
        ELSE IF RetOK(c, m, e, e.r) THEN {} ELSE {"result"})
       \cup
       (IF PROP = "T11" /\ e.op \notin {"obs", "Many", "Churn"}
        THEN (IF e.obs /\ ~e.r.ok /\ Seen(e) # m THEN {"effect of a refused call"} ELSE {})
        ELSE IF Seen(e) = Expected(e) THEN {} ELSE {"effect"})

Report(n, e) == IF ~Relevant(e) THEN TRUE
                ELSE LET j == Judge(e) IN IF j = {} THEN TRUE ELSE PrintT(<<"VIOL", PROP, n, e.op, j>>)

NextHeld(e) == IF e.h # 0 /\ e.op \notin HeldOps /\ ~Panicked(e) THEN (e.h :> e.r.es) @@ held ELSE held

Init == \E n \in 1..Len(Log) :
          /\ Log[n].op = "new"
          /\ i = n /\ held = << >> /\ m = (1 :> << >>)
          /\ c = [w |-> Log[n].w, n |-> Log[n].n]
          /\ IF Panicked(Log[n]) THEN PrintT(<<"VIOL", PROP, n, "new", {"panic"}>>) ELSE TRUE
Next == LET n == i + 1 IN
        /\ n <= Len(Log) /\ Log[n].op # "new"
        /\ LET e == Log[n] IN
           /\ i' = n /\ c' = c
           /\ Report(n, e)
           /\ m' = IF Panicked(e) THEN m ELSE Seen(e)
           /\ held' = NextHeld(e)
Spec == Init /\ [][Next]_vars
=============================================================================
