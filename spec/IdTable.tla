------------------------------ MODULE IdTable -------------------------------
(* The abstract state machine of every table of the library: the plain index *)
(* table (idx), the numeric id tables (t16, t32, t64) and the IP table (ip).  *)
(*                                                                           *)
(* Ids are numbered 0..n-1 in the order of the range the table manages; the   *)
(* contents are a function s from the claimed ids to their data. A call e is  *)
(* a record (operation and arguments), r is what the call returned.           *)
(*                                                                           *)
(*   RetOK(c, s, e, r)   the result r is one the table may give in state s    *)
(*   Effect(c, s, e, r)  the contents after the call                          *)
(*                                                                           *)
(* The same two operators drive exhaustive model checking (MC_IdTable), the   *)
(* generation of behaviours replayed into the code, the judging of recorded   *)
(* executions (TraceTable) and linearizability checking (LinTable).           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Labels, TLC

InTab(c, x) == x >= 0 /\ x < c.n
Empty == << >>                      \* the function with empty domain

Upd(s, x, v)  == (x :> v) @@ s
Del(s, x)     == [y \in DOMAIN s \ {x} |-> s[y]]
UpdAll(s, X, v) == [y \in DOMAIN s \cup X |-> IF y \in X THEN v ELSE s[y]]

(* ascending sequence of a finite set of integers *)
Asc(S) == SetToSortSeq(S, <)
Full(c, s) == Cardinality(DOMAIN s) >= c.n

(* the k lowest free ids lie below |s| + k, whatever the size of the table *)
LowestFree(c, s) == LET X == {x \in 0..Cardinality(DOMAIN s) : x \notin DOMAIN s}
                    IN CHOOSE x \in X : \A y \in X : x <= y
LowFree(c, s, k) ==
  LET X == {x \in 0..(Cardinality(DOMAIN s) + k - 1) : x \notin DOMAIN s}
      q == Asc(X)
  IN {q[i] : i \in 1..k}
FreeCount(c, s) == c.n - Cardinality(DOMAIN s)

Ent(c, x, s) == [i |-> x, l |-> c.w, v |-> s[x]]

(* q enumerates exactly the set X, ascending, once each *)
Enumerates(q, X) == /\ Len(q) = Cardinality(X)
                    /\ \A k \in 1..Len(q) : q[k] \in X
                    /\ \A k \in 1..(Len(q) - 1) : q[k] < q[k+1]
Ids(es) == [k \in 1..Len(es) |-> es[k].i]
ListingOK(c, s, es, X) == /\ Enumerates(Ids(es), X)
                          /\ \A k \in 1..Len(es) : es[k] = Ent(c, es[k].i, s)
(* value listings (IP tables list routes, not ids): the data in id order *)
ValListingOK(s, vs, X) ==
  LET q == Asc(X) IN Len(vs) = Len(q) /\ \A k \in 1..Len(q) : vs[k] = s[q[k]]
Matching(s, sel) == {x \in DOMAIN s : Matches(sel, s[x].l)}
FreeSet(c, s) == (0..(c.n - 1)) \ DOMAIN s
ConsOK(q, cons) == /\ Len(cons) = Len(q)
                   /\ \A k \in 1..Len(q) : cons[k] = (k > 1 /\ q[k-1] = q[k] - 1)

RangeFree(c, s, x, size) ==
  /\ size >= 1 /\ InTab(c, x) /\ size <= c.n - x
  /\ \A y \in DOMAIN s : y < x \/ y >= x + size
SizeFree(c, s, size) == size >= 1 /\ size <= FreeCount(c, s)

---------------------------------------------------------------------------
(* What a call may answer. *)
RetOK(c, s, e, r) ==
  CASE e.op = "Claim"    -> r.ok = (InTab(c, e.id) /\ e.id \notin DOMAIN s)
    [] e.op = "Release"  -> r.ok = InTab(c, e.id)
    [] e.op = "Update"   -> r.ok = (e.id \in DOMAIN s)
    [] e.op = "Get"      -> /\ r.ok = (e.id \in DOMAIN s)
                            /\ r.ok => [i |-> r.i, l |-> r.l, v |-> r.v] = Ent(c, e.id, s)
    [] e.op = "Has"      -> r.b = (e.id \in DOMAIN s)
    [] e.op = "IsFree"   -> r.b = (InTab(c, e.id) /\ e.id \notin DOMAIN s)
    [] e.op = "Size"     -> r.n = Cardinality(DOMAIN s)
    [] e.op = "FindFree" -> /\ r.ok = ~Full(c, s)
                            /\ r.ok => r.i = LowestFree(c, s)
    [] e.op = "ClaimDyn" -> /\ r.ok = ~Full(c, s)
                            /\ r.ok => [i |-> r.i, l |-> r.l, v |-> r.v] =
                                       [i |-> LowestFree(c, s), l |-> c.w, v |-> e.v]
    [] e.op = "ClaimRange"    -> \* a size of zero may answer either way, it just never claims
                                 e.size = 0 \/ r.ok = RangeFree(c, s, e.id, e.size)
    [] e.op = "FindFreeRange" ->
         IF e.size = 0 THEN r.ok => r.ids = << >>
         ELSE /\ r.ok = RangeFree(c, s, e.id, e.size)
              /\ r.ok => /\ Len(r.ids) = e.size
                         /\ \A k \in 1..e.size : r.ids[k] = e.id + k - 1
    [] e.op = "ClaimSize" ->
         IF e.size = 0 THEN r.ok => r.es = << >>
         ELSE /\ r.ok = SizeFree(c, s, e.size)
              /\ r.ok => LET X == LowFree(c, s, e.size)
                         IN ListingOK(c, UpdAll(s, X, e.v), r.es, X)
    [] e.op = "FindFreeSize" ->
         IF e.size = 0 THEN r.ok => r.ids = << >>
         ELSE /\ r.ok = SizeFree(c, s, e.size)
              /\ r.ok => Enumerates(r.ids, LowFree(c, s, e.size))
    [] e.op = "GetAll" -> IF c.kind = "ip" THEN ValListingOK(s, r.vals, DOMAIN s)
                                           ELSE ListingOK(c, s, r.es, DOMAIN s)
    [] e.op = "GetByLabel" -> IF c.kind = "ip" THEN ValListingOK(s, r.vals, Matching(s, e.sel))
                                               ELSE ListingOK(c, s, r.es, Matching(s, e.sel))
    [] e.op = "Iterate" -> r.lazy \/ (/\ ListingOK(c, s, r.es, DOMAIN s)
                                      /\ r.ids = Ids(r.es) /\ ConsOK(r.ids, r.cons))
    [] e.op = "IterateFree" -> r.lazy \/ (/\ Enumerates(r.ids, FreeSet(c, s))
                                          /\ ConsOK(r.ids, r.cons))

(* What a call does. *)
Effect(c, s, e, r) ==
  CASE e.op = "Claim"   -> IF InTab(c, e.id) /\ e.id \notin DOMAIN s THEN Upd(s, e.id, e.v) ELSE s
    [] e.op = "Release" -> Del(s, e.id)
    [] e.op = "Update"  -> IF e.id \in DOMAIN s THEN Upd(s, e.id, e.v) ELSE s
    [] e.op = "ClaimDyn" -> IF Full(c, s) THEN s ELSE Upd(s, LowestFree(c, s), e.v)
    [] e.op = "ClaimRange" -> IF RangeFree(c, s, e.id, e.size)
                              THEN UpdAll(s, e.id..(e.id + e.size - 1), e.v) ELSE s
    [] e.op = "ClaimSize" -> IF SizeFree(c, s, e.size)
                             THEN UpdAll(s, LowFree(c, s, e.size), e.v) ELSE s
    [] OTHER -> s
=============================================================================
