----------------------------- MODULE MC_Patricia -----------------------------
(* The stored tree (Patricia) refines the abstract multimap (MultiTree), for   *)
(* every history over a small width. Prints the transitions that are replayed  *)
(* into the real tree.                                                         *)
EXTENDS Patricia, Json, IOUtils
CONSTANTS W, MaxLen, Toks, Fns
MT == INSTANCE MultiTree
Emit == "EMIT" \in DOMAIN IOEnv

VARIABLES t, last
vars == <<t, last>>
(* slot numbers and the order of the free list are immaterial: states are identified up to them *)
RECURSIVE Shape(_, _)
Shape(x, k) == IF k = 0 THEN << >> ELSE <<x.n[k].b, x.n[k].v, Shape(x, x.n[k].l), Shape(x, x.n[k].r)>>
ShapeOf(x) == <<Shape(x, 1), Len(x.free)>>
View == ShapeOf(t)

RECURSIVE BitsOf(_)
BitsOf(k) == IF k = 0 THEN {""} ELSE {p \o b : p \in BitsOf(k - 1), b \in {"0", "1"}}
Ps == UNION {BitsOf(k) : k \in 0..W}
Vals == [p : {"c"}, d : 1..Toks]
M(x) == (1 :> Abs(x))

Calls == [op : {"Add"}, o : {1}, id : Ps, v : Vals, f : Fns \cup {"nil"}]
         \cup [op : {"Set"}, o : {1}, id : Ps, v : Vals]
         \cup [op : {"Delete"}, o : {1}, id : Ps, v : Vals, f : Fns]
Step(e) ==
  LET q == MT!ListOf(Abs(t), e.id) IN
  CASE e.op = "Add" -> AddPT(t, e.id, IF MT!Has(q, e.f, e.v) THEN q ELSE Append(q, e.v))
    [] e.op = "Set" -> AddPT(t, e.id, <<e.v>>)
    [] e.op = "Delete" -> DelPT(t, e.id, SelectSeq(q, LAMBDA y : ~MT!Same(e.f, y, e.v)))
Enabled(e) == LET q == MT!ListOf(Abs(t), e.id) IN
              /\ e.op = "Set" => Len(q) <= 1
              /\ e.op = "Add" => Len(q) < MaxLen
Init == t = NewPT /\ last = [op |-> "none"]
Next == \E e \in Calls : /\ Enabled(e)
                         /\ t' = Step(e)
                         /\ last' = e
Spec == Init /\ [][Next]_vars

Sound == WellFormed(t)
Ordered == LET q == Pairs(t) IN \A j \in 1..(Len(q) - 1) : Before(q[j][1], q[j + 1][1])
Refines == [][ M(t') = MT!Effect(M(t), last') ]_vars
EmitStep == Emit => PrintT(<<"EDGE", ToJson([from |-> ToString(ShapeOf(t)), to |-> ToString(ShapeOf(t')), e |-> last'])>>)
=============================================================================
