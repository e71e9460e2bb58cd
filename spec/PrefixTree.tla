----------------------------- MODULE PrefixTree -----------------------------
(* The abstract state machine of the id trees (tree16, tree32, tree64): a map *)
(* from prefixes to labels over ids of width c.w, managing the id space of     *)
(* the lowest 2^c.n ids. Several tree objects exist (clones): m maps a handle  *)
(* to the contents of that tree.                                              *)
EXTENDS Bits, Labels

Empty == << >>
Upd(s, p, v)  == (p :> v) @@ s
Without(s, D) == [q \in DOMAIN s \ D |-> s[q]]
UpdAll(s, P, v) == [q \in DOMAIN s \cup P |-> IF q \in P THEN v ELSE s[q]]

(* a prefix belongs to the tree's space when its lowest id does *)
InSpace(c, p) == LET k == Least(Len(p), c.w - c.n) IN SubSeq(p, 1, k) = Zeros(k)
Root(c) == Zeros(c.w - c.n)                 \* the prefix that is the whole space
RangeOK(c, e) == e.kind = "ok" /\ LeqId(e.a, e.b) /\ InSpace(c, e.b)
RangeSet(c, e) == LET q == Decomp(c.w, e.a, e.b) IN {q[k] : k \in 1..Len(q)}

Enumerates(q, X) == Len(q) = Cardinality(X) /\ InOrder(q) /\ \A k \in 1..Len(q) : q[k] \in X
Ids(es) == [k \in 1..Len(es) |-> es[k].p]
ListingOK(s, es, X) == Enumerates(Ids(es), X) /\ \A k \in 1..Len(es) : es[k].v = s[es[k].p]
Matching(s, sel) == {q \in DOMAIN s : Matches(sel, s[q].l)}

RetOK(c, m, e, r) ==
  LET s == m[e.o] IN
  CASE e.op \in {"Claim", "Update"} -> r.ok = InSpace(c, e.p)
    [] e.op = "Release"  -> r.ok = InSpace(c, e.p)
    [] e.op = "Get"      -> /\ r.ok = (e.p \in DOMAIN s)
                            /\ r.ok => r.p = e.p /\ r.v = s[e.p]
    [] e.op = "ClaimFree" -> /\ r.ok = ~AllCovered(c.w, DOMAIN s, Root(c))
                             /\ r.ok => /\ Len(r.p) = c.w /\ InSpace(c, r.p)
                                        /\ \A q \in DOMAIN s : ~Covers(q, r.p)
                                        /\ r.v = e.v
    [] e.op = "ClaimRange" -> r.ok = RangeOK(c, e)
    [] e.op = "ReleaseByLabel" -> r.ok
    [] e.op = "Children" -> ListingOK(s, r.es, {q \in DOMAIN s : StrictlyCovers(e.p, q)})
    [] e.op = "Parents"  -> ListingOK(s, r.es, {q \in DOMAIN s : StrictlyCovers(q, e.p)})
    [] e.op = "GetByLabel" -> ListingOK(s, r.es, Matching(s, e.sel))
    [] e.op \in {"GetAll", "Iterate"} -> ListingOK(s, r.es, DOMAIN s)
    [] e.op = "Size"     -> r.n = Cardinality(DOMAIN s)
    [] e.op = "Clone"    -> r.ok

Effect(c, m, e, r) ==
  LET s == m[e.o] IN
  CASE e.op \in {"Claim", "Update"} -> IF InSpace(c, e.p) THEN [m EXCEPT ![e.o] = Upd(s, e.p, e.v)] ELSE m
    [] e.op = "Release" -> IF InSpace(c, e.p) THEN [m EXCEPT ![e.o] = Without(s, {e.p})] ELSE m
    [] e.op = "ClaimFree" -> IF r.ok THEN [m EXCEPT ![e.o] = Upd(s, r.p, e.v)] ELSE m
    [] e.op = "ClaimRange" -> IF RangeOK(c, e) THEN [m EXCEPT ![e.o] = UpdAll(s, RangeSet(c, e), e.v)] ELSE m
    [] e.op = "ReleaseByLabel" -> [m EXCEPT ![e.o] = Without(s, Matching(s, e.sel))]
    [] e.op = "Clone" -> (e.o2 :> s) @@ m
    [] OTHER -> m
=============================================================================
