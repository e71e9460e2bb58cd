------------------------------ MODULE IdAlgebra ------------------------------
(* Ids, prefixes and ranges over a fixed width, on bit strings. An id is       *)
(* [x |-> all W bits of its number, l |-> its length].                         *)
EXTENDS Bits

RECURSIVE AddOne(_), SubOne(_)
AddOne(x) == IF x = "" THEN "" ELSE LET n == Len(x) h == SubSeq(x, 1, n - 1)
             IN IF Bit(x, n) = "0" THEN h \o "1" ELSE AddOne(h) \o "0"      \* wraps at the top
SubOne(x) == IF x = "" THEN "" ELSE LET n == Len(x) h == SubSeq(x, 1, n - 1)
             IN IF Bit(x, n) = "1" THEN h \o "0" ELSE SubOne(h) \o "1"      \* wraps at 0
Lt(x, y)  == x # y /\ Before(x, y)          \* numbers of the same width
Leq(x, y) == x = y \/ Before(x, y)
ZeroId(W) == [x |-> Zeros(W), l |-> 0]
KeepBits(W, x, l) == [x |-> Low(W, SubSeq(x, 1, l)), l |-> l]
AgreeBits(W, x, y) == IF x = y THEN W ELSE FirstDiff(x, y, 1, W) - 1
Cmp(a, b) == IF a.l # b.l THEN (IF a.l < b.l THEN -1 ELSE 1)
             ELSE IF a.x = b.x THEN 0 ELSE IF Lt(a.x, b.x) THEN -1 ELSE 1
Pfx(i) == SubSeq(i.x, 1, i.l)
Disjoint(r, o) == Lt(r.b, o.a) \/ Lt(o.b, r.a)

(* no call changes an id it was given or asked about *)
Kept(r) == "changed" \notin DOMAIN r
AnswerOK(e, r) ==
  LET W == e.w IN
  CASE e.op = "RangeIDs"  -> r.ids = Decomp(W, e.a, e.b)
    [] e.op = "RangeOfID" -> r.a = Low(W, e.p) /\ r.b = High(W, e.p) /\ r.la = W /\ r.lb = W /\ r.last = High(W, e.p) /\ r.valid
    [] e.op = "Mask"      -> /\ r.ok = (e.k <= W)
                             /\ r.ok => r.i = KeepBits(W, e.i.x, e.k)
    [] e.op = "Masked"    -> r.i = KeepBits(W, e.i.x, e.i.l)
    [] e.op = "Parse"     -> /\ r.ok = (e.kind = "ok")
                             /\ r.ok => r.a = e.a /\ r.b = e.b /\ r.la = W /\ r.lb = W /\ r.text = e.canon /\ r.valid = Leq(e.a, e.b)
    [] e.op = "Next"      -> r.i = IF e.i.x = Ones(W) THEN ZeroId(W) ELSE [e.i EXCEPT !.x = AddOne(@)]
    [] e.op = "Prev"      -> r.i = IF e.i.x = Zeros(W) THEN ZeroId(W) ELSE [e.i EXCEPT !.x = SubOne(@)]
    [] e.op = "Matches"   -> r.n = AgreeBits(W, e.i.x, e.y)
    [] e.op = "ShiftLeft" -> r.i = [x |-> SubSeq(e.i.x, e.k + 1, W) \o Zeros(e.k), l |-> e.i.l - e.k]
    [] e.op = "LeftBit"   -> LET one == Bit(e.i.x, 1) = "1" IN r.b1 = one /\ r.b2 = one
    [] e.op = "Compare"   -> LET c == Cmp(e.i, e.j) IN r.n = c /\ r.less = (c = -1)
    [] e.op = "Overlaps"  -> LET v == Covers(Pfx(e.i), Pfx(e.j)) \/ Covers(Pfx(e.j), Pfx(e.i)) IN r.b = v /\ r.b2 = v
    [] e.op = "Text"      -> r.text = e.canon /\ r.i = e.i
    [] e.op = "Relate"    -> /\ r.before = Lt(e.q.b, e.o.a)
                             /\ r.covered = (Leq(e.o.a, e.q.a) /\ Leq(e.q.b, e.o.b))
                             /\ r.middle = (Lt(e.o.a, e.q.a) /\ Lt(e.q.b, e.o.b))
                             /\ Disjoint(e.q, e.o) \/ (r.start = (Leq(e.q.a, e.o.a) /\ Lt(e.q.b, e.o.b)))
                             /\ Disjoint(e.q, e.o) \/ (r.end = (Lt(e.o.a, e.q.a) /\ Leq(e.o.b, e.q.b)))
                             /\ r.less = IF e.q.a # e.o.a THEN Lt(e.q.a, e.o.a) ELSE Lt(e.o.b, e.q.b)
    [] e.op = "Entry"     -> LET ent == [i |-> e.i, v |-> e.v] IN r.e = ent /\ r.again = ent /\ r.copy = e.i /\ r.eq
    [] e.op = "EntryEq"   -> LET same == e.i = e.j /\ e.v = e.u IN r.b = same /\ r.b2 = same
    [] e.op = "Merge"     -> r.i = [x |-> Low(W, SubSeq(e.x, 1, e.l) \o SubSeq(e.y, 1, e.k)), l |-> e.l + e.k]
    [] e.op = "Bounds"    -> r.valid = Leq(e.a, e.b) /\ r.a = e.a /\ r.b = e.b /\ r.sa = e.c /\ r.sb = e.c /\ ~r.zero
=============================================================================
