------------------------------ MODULE MultiTree ------------------------------
(* The generic radix tree (tree.Tree[T]): every prefix carries an ordered list *)
(* of values. m maps a tree object to [prefix -> nonempty list of values].     *)
(* A value is [p |-> class, d |-> token]; the ids of the calls are bit strings.*)
EXTENDS Bits

ListOf(s, p) == IF p \in DOMAIN s THEN s[p] ELSE << >>
Put(s, p, q) == IF q = << >> THEN [x \in DOMAIN s \ {p} |-> s[x]] ELSE (p :> q) @@ s

(* equality functions a caller may hand in: x is in the tree, y was given *)
Same(f, x, y) == CASE f = "eq"    -> x = y
                   [] f = "class" -> x.p = y.p
                   [] f = "le"    -> x.d <= y.d       \* not symmetric
                   [] f = "all"   -> TRUE
                   [] OTHER       -> FALSE            \* "nil", "never"
Has(q, f, y) == \E k \in 1..Len(q) : Same(f, q[k], y)

RetOK(m, e, r) ==
  LET s == m[e.o]
      q == IF "id" \in DOMAIN e THEN ListOf(s, e.id) ELSE << >>
  IN CASE e.op = "Add" -> LET dup == Has(q, e.f, e.v)
                          IN r.grew = ~dup /\ r.n = (IF dup THEN Len(q) ELSE Len(q) + 1)
       [] e.op = "Set" -> r.grew = (q = << >>) /\ r.n = 1        \* only on prefixes with at most one value
       [] e.op = "Delete" -> r.n = Len(SelectSeq(q, LAMBDA x : Same(e.f, x, e.v)))
       [] e.op = "Iterate" -> r.es = LET ps == SortBits(DOMAIN s) IN [k \in 1..Len(ps) |-> s[ps[k]]]
       [] e.op = "Clone" -> TRUE
       (* many calls in one line (large trees): values added one by one to one prefix; *)
       (* one value added to / everything deleted from each of many distinct prefixes  *)
       [] e.op = "AddN" -> /\ Len(r.q) = Len(e.vs)
                           /\ \A k \in 1..Len(r.q) : r.q[k] = [grew |-> TRUE, n |-> Len(q) + k]
       [] e.op = "ManyAdd" -> /\ Len(r.q) = Len(e.ids)
                              /\ \A k \in 1..Len(r.q) : r.q[k] = [grew |-> TRUE, n |-> Len(ListOf(s, e.ids[k])) + 1]
       [] e.op = "ManyDelete" -> /\ Len(r.q) = Len(e.ids)
                                 /\ \A k \in 1..Len(r.q) : r.q[k] = Len(ListOf(s, e.ids[k]))
       (* r.ps: the prefix each list belongs to, as named by its first value *)
       [] e.op = "IterAll" -> /\ Len(r.ps) = Cardinality(DOMAIN s) /\ InOrder(r.ps)
                              /\ \A k \in 1..Len(r.ps) : r.ps[k] \in DOMAIN s /\ r.es[k] = s[r.ps[k]]

Effect(m, e) ==
  LET s == m[e.o] 
      q == IF "id" \in DOMAIN e THEN ListOf(s, e.id) ELSE << >>
  IN CASE e.op = "Add" -> IF Has(q, e.f, e.v) THEN m ELSE [m EXCEPT ![e.o] = Put(s, e.id, Append(q, e.v))]
       [] e.op = "Set" -> [m EXCEPT ![e.o] = Put(s, e.id, <<e.v>>)]
       [] e.op = "Delete" -> [m EXCEPT ![e.o] = Put(s, e.id, SelectSeq(q, LAMBDA x : ~Same(e.f, x, e.v)))]
       [] e.op = "Clone" -> (e.o2 :> s) @@ m
       [] e.op = "AddN" -> [m EXCEPT ![e.o] = Put(s, e.id, q \o e.vs)]
       [] e.op = "ManyAdd" -> LET X == {e.ids[k] : k \in 1..Len(e.ids)}
                              IN [m EXCEPT ![e.o] = [p \in DOMAIN s \cup X |-> IF p \in X THEN Append(ListOf(s, p), [p |-> p \o ":c", d |-> e.d]) ELSE s[p]]]
       [] e.op = "ManyDelete" -> LET X == {e.ids[k] : k \in 1..Len(e.ids)}
                                 IN [m EXCEPT ![e.o] = [p \in DOMAIN s \ X |-> s[p]]]
       [] OTHER -> m
=============================================================================
