----------------------------- MODULE TraceTable -----------------------------
(* Judges recorded executions of the real tables against IdTable. Each line   *)
(* of the trace is one call with its result and, when it was observed, the    *)
(* change of the contents (set/del) seen through the public interface.        *)
(* A state of this specification is "the table after line i"; every line of   *)
(* the trace must be explained by the specification's action for that call.   *)
(* A line that is not is reported as VIOL and the state is taken from the     *)
(* observation, so that later lines are still judged.                          *)
EXTENDS IdTable, Json, IOUtils

Log  == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES i, c, s, held
vars == <<i, c, s, held>>

Lookup(q) == [x \in {q[k][1] : k \in 1..Len(q)} |-> q[CHOOSE k \in 1..Len(q) : q[k][1] = x][2]]
Apply(t, e) == LET d == {e.del[k] : k \in 1..Len(e.del)}
                   f == Lookup(e.set)
               IN f @@ [x \in DOMAIN t \ d |-> t[x]]

Panicked(e) == "panic" \in DOMAIN e.r
Muts  == {"Claim", "Release", "Update", "ClaimDyn", "ClaimRange", "ClaimSize"}
Reads == {"Get", "Has", "IsFree", "Size", "GetAll", "Iterate", "IterateFree"}
HeldOps == {"ReadHeld", "Step", "StepN", "Scribble"}

(* One line for many calls of the same kind on distinct ids (histories with    *)
(* tens of thousands of ids): because the ids are distinct their effects are   *)
(* independent of each other. The value for id x is the spec's own choice.     *)
ManyVal(e, x) == e.vs[(x % Len(e.vs)) + 1]
ManyRetOK(e) ==
  /\ Len(e.r.q) = Len(e.ids)
  /\ \A k \in 1..Len(e.ids) :
       LET x == e.ids[k] IN
       CASE e.of = "Claim"   -> e.r.q[k] = (InTab(c, x) /\ x \notin DOMAIN s)
         [] e.of = "Release" -> e.r.q[k] = InTab(c, x)
         [] e.of = "Update"  -> e.r.q[k] = (x \in DOMAIN s)
         [] e.of = "Has"     -> e.r.q[k] = (x \in DOMAIN s)
         [] e.of = "Get"     -> IF x \in DOMAIN s THEN e.r.q[k] = <<Ent(c, x, s)>> ELSE e.r.q[k] = << >>
ManyEffect(e) ==
  LET X == {e.ids[k] : k \in 1..Len(e.ids)} IN
  CASE e.of = "Claim" -> LET N == {x \in X : InTab(c, x) /\ x \notin DOMAIN s}
                         IN [y \in DOMAIN s \cup N |-> IF y \in N THEN ManyVal(e, y) ELSE s[y]]
    [] e.of = "Release" -> [y \in DOMAIN s \ X |-> s[y]]
    [] e.of = "Update" -> [y \in DOMAIN s |-> IF y \in X THEN ManyVal(e, y) ELSE s[y]]
    [] OTHER -> s

(* The same calls over and over: rs are the results of one round, the same in  *)
(* r.n rounds in a row. When a second round changes nothing any more, neither   *)
(* does a third.                                                                *)
RECURSIVE Round(_, _, _, _), Runs(_, _, _)
Round(a, calls, rs, k) ==
  IF k > Len(calls) THEN a
  ELSE Round([ok |-> a.ok /\ RetOK(c, a.s, calls[k], rs[k]), s |-> Effect(c, a.s, calls[k], rs[k])], calls, rs, k + 1)
Runs(a, e, k) ==
  IF k > Len(e.r.runs) THEN a
  ELSE LET u == e.r.runs[k]
           b == Round(a, e.calls, u.rs, 1)
           d == Round(b, e.calls, u.rs, 1)
       IN Runs(IF u.n = 1 THEN b ELSE [ok |-> d.ok /\ d.s = b.s, s |-> d.s], e, k + 1)
Churned(e) == Runs([ok |-> TRUE, s |-> s], e, 1)

(* which calls each property speaks about *)
PropOps ==
  [T01 |-> {"Claim"}, T02 |-> {"Release", "Update"},
   T03 |-> {"FindFree", "ClaimDyn"}, T04 |-> {"ClaimRange", "FindFreeRange"},
   T05 |-> {"ClaimSize", "FindFreeSize"}, T06 |-> Reads,
   T07 |-> Muts \cup Reads \cup {"FindFree", "GetByLabel"},
   T08 |-> Muts \cup Reads \cup {"FindFree", "GetByLabel"},
   T09 |-> {"GetByLabel"}, T10 |-> HeldOps, T11 |-> Muts]
Relevant(e) == \/ e.op \in PropOps[PROP]
               \/ e.op = "Many" /\ (e.of \in PropOps[PROP] \/ e.of = "Get")
               \/ e.op = "Churn" /\ \E k \in 1..Len(e.calls) : e.calls[k].op \in PropOps[PROP]
               \/ e.op = "obs"              \* contents after unobserved calls
               \/ e.op = "new" /\ PROP \in {"T01", "T07", "T08"}

(* contents kept by a handle *)
HeldContent(e) ==
  CASE e.op = "Iterate"     -> [kind |-> "iter", pos |-> 0, ids |-> Asc(DOMAIN s), s |-> s, free |-> FALSE]
    [] e.op = "IterateFree" -> [kind |-> "iter", pos |-> 0, ids |-> Asc(FreeSet(c, s)), s |-> << >>, free |-> TRUE]
    [] e.op = "Get"         -> [kind |-> "es", x |-> <<[i |-> e.r.i, l |-> e.r.l, v |-> e.r.v]>>]
    [] "es" \in DOMAIN e.r   -> [kind |-> "es", x |-> e.r.es]
    [] "ids" \in DOMAIN e.r  -> [kind |-> "ids", x |-> e.r.ids]
    [] "vals" \in DOMAIN e.r -> [kind |-> "vals", x |-> e.r.vals]
Holds(e) == /\ e.h # 0 /\ e.op \notin HeldOps /\ ~Panicked(e)
            /\ ("ok" \in DOMAIN e.r) => e.r.ok

StepOK(k, p, r) ==
  /\ r.more = (p <= Len(k.ids))
  /\ r.more => /\ r.i = k.ids[p]
               /\ r.cons = (p > 1 /\ k.ids[p-1] = k.ids[p] - 1)
               /\ ~k.free => r.e = Ent(c, k.ids[p], k.s)
HeldRetOK(e) ==
  LET k == held[e.h] IN
  CASE e.op = "ReadHeld" -> (CASE k.kind = "es"   -> e.r.es = k.x
                               [] k.kind = "ids"  -> e.r.ids = k.x
                               [] k.kind = "vals" -> e.r.vals = k.x)
    [] e.op = "Scribble" -> TRUE
    [] e.op = "Step" -> StepOK(k, k.pos + 1, e.r)
    [] e.op = "StepN" -> \A j \in 1..Len(e.r.q) : StepOK(k, k.pos + j, e.r.q[j])

NextHeld(e) ==
  IF e.op = "Step" THEN [held EXCEPT ![e.h].pos = @ + 1]
  ELSE IF e.op = "StepN" THEN [held EXCEPT ![e.h].pos = @ + Len(e.r.q)]
  ELSE IF Holds(e) THEN (e.h :> HeldContent(e)) @@ held
  ELSE held

(* the contents the specification requires after line e *)
Expected(e) == IF e.op = "Many" THEN ManyEffect(e)
               ELSE IF e.op = "Churn" THEN Churned(e).s
               ELSE IF e.op \in HeldOps \cup {"obs"} THEN s ELSE Effect(c, s, e, e.r)
Seen(e) == IF e.op = "obs" THEN Lookup(e.r.st)
           ELSE IF e.obs THEN Apply(s, e) ELSE Expected(e)

(* T07/T08 speak about all calls: every result must name the caller's ids    *)
Judge(e) ==
  IF Panicked(e) THEN {"panic"}
  ELSE (IF e.op \in HeldOps THEN (IF HeldRetOK(e) THEN {} ELSE {"result"})
        ELSE IF e.op = "obs" THEN {}
        ELSE IF e.op = "Many" THEN (IF ManyRetOK(e) THEN {} ELSE {"result"})
        ELSE IF e.op = "Churn" THEN (IF Churned(e).ok THEN {} ELSE {"result"})
        ELSE IF PROP = "T11" THEN {}
        ELSE IF RetOK(c, s, e, e.r) THEN {} ELSE {"result"})
       \cup
       (IF PROP = "T11" /\ e.op \notin {"obs", "Many", "Churn"}
        THEN (IF e.obs /\ ~e.r.ok /\ Seen(e) # s THEN {"effect of a refused call"} ELSE {})
        ELSE IF Seen(e) = Expected(e) THEN {} ELSE {"effect"})

(* Listed deviations (known_findings.txt): an id whose offset in the range is *)
(* 2^64-1 or more cannot be represented by the 64-bit index of the tables.     *)
Known(e) == /\ PROP \in {"T07", "T08"} /\ c.cap < c.n
            /\ ~Panicked(e)
            /\ \/ /\ e.op \in {"Claim", "Release", "IsFree"} /\ e.id >= c.cap /\ e.id < c.n
                  /\ IF e.op = "IsFree" THEN ~e.r.b ELSE ~e.r.ok
            /\ e.obs => Apply(s, e) = s

Report(n, e) ==
  IF ~Relevant(e) THEN TRUE
  ELSE LET j == Judge(e) IN
       IF j = {} THEN TRUE
       ELSE IF Known(e) THEN PrintT(<<"KNOWN", PROP, n, "wide-range">>)
       ELSE PrintT(<<"VIOL", PROP, n, e.op, j>>)

Init == \E n \in 1..Len(Log) :
          /\ Log[n].op = "new"
          /\ i = n /\ held = << >> /\ s = << >>
          /\ c = [kind |-> Log[n].kind, n |-> Log[n].n, w |-> Log[n].w, cap |-> Log[n].cap]
          /\ IF Panicked(Log[n]) THEN PrintT(<<"VIOL", PROP, n, "new", {"panic"}>>) ELSE TRUE

Next == LET n == i + 1 IN
        /\ n <= Len(Log) /\ Log[n].op # "new"
        /\ LET e == Log[n] IN
           /\ i' = n /\ c' = c
           /\ Report(n, e)
           /\ s' = IF Panicked(e) THEN s
                   ELSE IF Known(e) THEN s ELSE Seen(e)
           /\ held' = IF Panicked(e) THEN held ELSE NextHeld(e)

Spec == Init /\ [][Next]_vars
=============================================================================
