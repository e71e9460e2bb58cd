----------------------------- MODULE MC_IdTable -----------------------------
(* Exhaustive exploration of the table specification over a small table, with *)
(* clients that remember what they were given. Checks that the actions of     *)
(* IdTable give the guarantees the clients rely on, and (when EMIT is set)     *)
(* prints every transition: the behaviours replayed into the real tables.      *)
EXTENDS IdTable, Json, IOUtils

CONSTANTS N, NVals

Emit == "EMIT" \in DOMAIN IOEnv
c == [kind |-> "idx", n |-> N, w |-> 0, cap |-> N]
Data == {[l |-> << <<"a", ToString(k)>> >>, d |-> ToString(k)] : k \in 1..NVals}

VARIABLES s,      \* contents of the table
          last    \* the call just made, its answer and the contents before
vars == <<s, last>>

IdArgs == -1..N
Sizes  == 0..(N + 1)
Calls ==
  [op : {"Claim", "Update"}, id : IdArgs, v : Data]
  \cup [op : {"Release", "Get", "Has", "IsFree"}, id : IdArgs]
  \cup [op : {"Size", "FindFree", "GetAll", "Iterate", "IterateFree"}]
  \cup [op : {"ClaimDyn"}, v : Data]
  \cup [op : {"ClaimRange"}, id : IdArgs, size : Sizes, v : Data]
  \cup [op : {"FindFreeRange"}, id : IdArgs, size : Sizes]
  \cup [op : {"ClaimSize"}, size : Sizes, v : Data]
  \cup [op : {"FindFreeSize"}, size : Sizes]
  \cup [op : {"GetByLabel"}, sel : {[t |-> "req", rs |-> <<[k |-> "a", op |-> "eq", vs |-> <<ToString(x)>>]>>] : x \in 1..NVals}]

(* every answer RetOK allows, built from the candidates of the right shape *)
EntAns(k, es) == [ok |-> TRUE, i |-> k, l |-> 0, v |-> es]
SeqsOf(X) == {Asc(Y) : Y \in SUBSET X}
Ranges == SeqsOf(0..(N-1))
EsOf(q, t) == [k \in 1..Len(q) |-> Ent(c, q[k], t)]
ConsOf(q) == [k \in 1..Len(q) |-> k > 1 /\ q[k-1] = q[k] - 1]
Answers(t, e) ==
  LET B == {[b |-> TRUE], [b |-> FALSE]}
      Fail == [ok |-> FALSE]
  IN CASE e.op \in {"Claim", "Update", "Release", "ClaimRange"} -> {[ok |-> TRUE], Fail}
       [] e.op \in {"Has", "IsFree"} -> B
       [] e.op = "Get" -> {Fail} \cup {EntAns(k, x) : k \in 0..(N-1), x \in Data}
       [] e.op = "Size" -> {[n |-> k] : k \in 0..N}
       [] e.op = "FindFree" -> {Fail} \cup {[ok |-> TRUE, i |-> k] : k \in 0..(N-1)}
       [] e.op = "ClaimDyn" -> {Fail} \cup {EntAns(k, e.v) : k \in 0..(N-1)}
       [] e.op \in {"FindFreeRange", "FindFreeSize"} -> {Fail} \cup {[ok |-> TRUE, ids |-> q] : q \in Ranges}
       [] e.op = "ClaimSize" -> {Fail} \cup {[ok |-> TRUE, es |-> EsOf(q, UpdAll(t, 0..(N-1), e.v))] : q \in Ranges}
       [] e.op = "GetAll" -> {[es |-> EsOf(q, t)] : q \in SeqsOf(DOMAIN t)}
       [] e.op = "GetByLabel" -> {[es |-> EsOf(q, t)] : q \in SeqsOf(DOMAIN t)}
       [] e.op = "Iterate" -> {[lazy |-> FALSE, es |-> EsOf(q, t), ids |-> q, cons |-> ConsOf(q)] : q \in SeqsOf(DOMAIN t)}
       [] e.op = "IterateFree" -> {[lazy |-> FALSE, ids |-> q, cons |-> ConsOf(q)] : q \in Ranges}

Init == s = Empty /\ last = [op |-> "none"]
Next == \E e \in Calls :
          \E r \in {a \in Answers(s, e) : RetOK(c, s, e, a)} :
             /\ s' = Effect(c, s, e, r)
             /\ last' = [op |-> e.op, e |-> e, r |-> r, pre |-> s]
Spec == Init /\ [][Next]_vars
View == s                          \* the call is not part of the state

---------------------------------------------------------------------------
TypeOK == DOMAIN s \subseteq 0..(N-1) /\ \A x \in DOMAIN s : s[x] \in Data

(* Every call has an answer, and (but for size 0) only one: no call blocks,   *)
(* and a table cannot choose.                                                 *)
Answered == \A e \in Calls :
              LET A == {a \in Answers(s, e) : RetOK(c, s, e, a)}
              IN A # {} /\ (Cardinality(A) = 1 \/ ("size" \in DOMAIN e /\ e.size = 0))

Given(r) == IF "ids" \in DOMAIN r THEN {r.ids[k] : k \in 1..Len(r.ids)}
            ELSE IF "es" \in DOMAIN r THEN {r.es[k].i : k \in 1..Len(r.es)}
            ELSE IF "i" \in DOMAIN r THEN {r.i} ELSE {}
Taken == DOMAIN s' \ DOMAIN s

(* what a client may conclude from one step, stated without Effect *)
T01_Exclusive == [][ last'.op \in {"Claim", "ClaimDyn", "ClaimRange", "ClaimSize"} =>
                       /\ \A x \in DOMAIN s : x \in DOMAIN s' /\ s'[x] = s[x]   \* no holder is disturbed
                       /\ \A x \in Taken : s'[x] = last'.e.v ]_vars
T01_Iff == [][ last'.op = "Claim" =>
                 /\ last'.r.ok <=> last'.e.id \in 0..(N-1) /\ last'.e.id \notin DOMAIN s
                 /\ Taken = IF last'.r.ok THEN {last'.e.id} ELSE {} ]_vars
T02_Frame == [][ last'.op \in {"Release", "Update"} =>
                   \A x \in 0..(N-1) : x # last'.e.id =>
                     /\ x \in DOMAIN s <=> x \in DOMAIN s'
                     /\ x \in DOMAIN s => s'[x] = s[x] ]_vars
T02_Release == [][ last'.op = "Release" => last'.e.id \notin DOMAIN s' ]_vars
T03_Lowest == [][ last'.op \in {"ClaimDyn", "FindFree"} =>
                    /\ last'.r.ok <=> (0..(N-1)) \ DOMAIN s # {}
                    /\ last'.r.ok => /\ last'.r.i \notin DOMAIN s
                                     /\ \A y \in 0..(last'.r.i - 1) : y \in DOMAIN s ]_vars
T04_AllOrNothing == [][ last'.op = "ClaimRange" =>
                          Taken = IF last'.r.ok /\ last'.e.size > 0
                                  THEN last'.e.id..(last'.e.id + last'.e.size - 1) ELSE {} ]_vars
T05_Count == [][ last'.op = "ClaimSize" =>
                   /\ Cardinality(Taken) = IF last'.r.ok THEN last'.e.size ELSE 0
                   /\ last'.r.ok => Taken = Given(last'.r)
                   /\ \A x \in Taken : \A y \in 0..(x-1) : y \in DOMAIN s' ]_vars
SearchAgrees == [][ last'.op \in {"FindFreeRange", "FindFreeSize"} =>
                      Given(last'.r) \cap DOMAIN s = {} /\ s' = s ]_vars
T11_Refused == [][ ("ok" \in DOMAIN last'.r /\ ~last'.r.ok) => s' = s ]_vars
ReadsPure == [][ last'.op \notin {"Claim", "Release", "Update", "ClaimDyn", "ClaimRange", "ClaimSize"} => s' = s ]_vars

(* printing the transitions *)
EmitStep == Emit => PrintT(<<"EDGE", ToJson([from |-> {<<x, s[x].d>> : x \in DOMAIN s},
                                             to |-> {<<x, s'[x].d>> : x \in DOMAIN s'}, e |-> last'.e])>>)
=============================================================================
