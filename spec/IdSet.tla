-------------------------------- MODULE IdSet --------------------------------
(* Sets of ids as binary tries: E (no id), F (every id below) or a node with   *)
(* two different-from-full, different-from-empty pairs of halves. The builder  *)
(* is the sequence of the set's changes; sets handed out keep their contents.  *)
EXTENDS IdAlgebra

TE == [k |-> "E"]
TF == [k |-> "F"]
Mk(l, r) == IF l.k = "E" /\ r.k = "E" THEN TE ELSE IF l.k = "F" /\ r.k = "F" THEN TF ELSE [k |-> "N", l |-> l, r |-> r]
RECURSIVE TSet(_, _, _, _)     \* everything below prefix p (from bit k on) becomes v
TSet(t, p, k, v) ==
  IF k > Len(p) \/ t.k = v.k THEN (IF k > Len(p) THEN v ELSE t)
  ELSE LET a == IF t.k = "N" THEN t.l ELSE t
           b == IF t.k = "N" THEN t.r ELSE t
       IN IF Bit(p, k) = "0" THEN Mk(TSet(a, p, k + 1, v), b) ELSE Mk(a, TSet(b, p, k + 1, v))
SetP(t, p, v) == TSet(t, p, 1, v)
RECURSIVE SetAll(_, _, _)
SetAll(t, ps, v) == IF ps = << >> THEN t ELSE SetAll(SetP(t, Head(ps), v), Tail(ps), v)
SetRange(W, t, a, b, v) == SetAll(t, Decomp(W, a, b), v)

RECURSIVE Leaves(_, _)
Leaves(t, p) == IF t.k = "E" THEN << >> ELSE IF t.k = "F" THEN <<p>>
                ELSE Leaves(t.l, p \o "0") \o Leaves(t.r, p \o "1")
RECURSIVE Join(_, _, _, _)     \* adjacent leaves make one range
Join(W, q, k, acc) ==
  IF k > Len(q) THEN acc
  ELSE LET lo == Low(W, q[k]) hi == High(W, q[k]) n == Len(acc)
       IN IF n > 0 /\ acc[n][2] # Ones(W) /\ AddOne(acc[n][2]) = lo THEN Join(W, q, k + 1, [acc EXCEPT ![n] = <<acc[n][1], hi>>])
          ELSE Join(W, q, k + 1, Append(acc, <<lo, hi>>))
IDsOf(t) == Leaves(t, "")
RangesOf(W, t) == Join(W, IDsOf(t), 1, << >>)
RECURSIVE Within(_, _, _)      \* every id under p is in the set
Within(t, p, k) == IF t.k = "F" THEN TRUE ELSE IF t.k = "E" \/ k > Len(p) THEN FALSE
                   ELSE Within(IF Bit(p, k) = "0" THEN t.l ELSE t.r, p, k + 1)
HasPrefix(t, l) == \E k \in 1..Len(IDsOf(t)) : Len(IDsOf(t)[k]) <= l
AddAll(t, u) == SetAll(t, IDsOf(u), TF)

(* st: handle -> [b |-> builder's set, bad |-> invalid input seen] or sets     *)
Builder(st, b) == IF b \in DOMAIN st.b THEN st.b[b] ELSE [t |-> TE, bad |-> FALSE]
RetOK(W, st, e, r) ==
  CASE e.op = "Build"  -> /\ r.ranges = RangesOf(W, Builder(st, e.b).t)
                          /\ r.ids = IDsOf(Builder(st, e.b).t)
                          /\ r.ok = ~Builder(st, e.b).bad
    [] e.op = "Read"   -> r.ranges = RangesOf(W, st.s[e.s]) /\ r.ids = IDsOf(st.s[e.s])
    [] e.op = "RemoveFree" -> LET t == st.s[e.s] IN
                          /\ r.ok = HasPrefix(t, e.k)
                          /\ r.ok => /\ Len(r.p) = e.k /\ Within(t, r.p, 1)
                                     /\ LET u == SetP(t, r.p, TE) IN r.ranges = RangesOf(W, u) /\ r.ids = IDsOf(u)
                          /\ ~r.ok => r.ranges = RangesOf(W, t)
    [] OTHER -> TRUE
PutB(st, b, t) == [st EXCEPT !.b = (b :> [t |-> t, bad |-> Builder(st, b).bad]) @@ @]
Effect(W, st, e, r) ==
  LET t == IF "b" \in DOMAIN e THEN Builder(st, e.b).t ELSE TE IN
  CASE e.op = "AddId"       -> PutB(st, e.b, SetP(t, e.p, TF))
    [] e.op = "RemoveId"    -> PutB(st, e.b, SetP(t, e.p, TE))
    [] e.op = "AddRange"    -> IF Leq(e.x, e.y) THEN PutB(st, e.b, SetRange(W, t, e.x, e.y, TF))
                               ELSE [st EXCEPT !.b = (e.b :> [t |-> t, bad |-> TRUE]) @@ @]
    [] e.op = "RemoveRange" -> IF Leq(e.x, e.y) THEN PutB(st, e.b, SetRange(W, t, e.x, e.y, TE))
                               ELSE [st EXCEPT !.b = (e.b :> [t |-> t, bad |-> TRUE]) @@ @]
    [] e.op = "AddSet"      -> IF e.s = 0 THEN PutB(st, e.b, t) ELSE PutB(st, e.b, AddAll(t, st.s[e.s]))
    [] e.op = "Build"       -> [st EXCEPT !.s = (e.s :> t) @@ @, !.b = (e.b :> [t |-> t, bad |-> FALSE]) @@ @]
    [] e.op = "RemoveFree"  -> IF r.ok THEN [st EXCEPT !.s = (e.s2 :> SetP(st.s[e.s], r.p, TE)) @@ @] ELSE st
    [] OTHER -> st
=============================================================================
