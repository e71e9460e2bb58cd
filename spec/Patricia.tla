------------------------------- MODULE Patricia ------------------------------
(* The radix tree as it is stored: slots holding partial prefixes, a free list *)
(* of slots, and the algorithms for adding, deleting and compacting. Refines   *)
(* MultiTree (checked in MC_Patricia).                                         *)
EXTENDS Bits

Node(b, v) == [l |-> 0, r |-> 0, b |-> b, v |-> v]
NewPT == [n |-> <<Node("", << >>)>>, free |-> << >>]

RECURSIVE Common(_, _)
Common(a, b) == IF a = "" \/ b = "" \/ Bit(a, 1) # Bit(b, 1) THEN 0
                ELSE 1 + Common(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
Drop(b, k) == SubSeq(b, k + 1, Len(b))
Left(b) == Bit(b, 1) = "0"

(* allocation takes the slot freed last *)
AllocSlot(t) == IF t.free # << >> THEN t.free[Len(t.free)] ELSE Len(t.n) + 1
Alloc(t, nd) == LET k == AllocSlot(t)
                IN IF t.free # << >> THEN [n |-> [t.n EXCEPT ![k] = nd], free |-> SubSeq(t.free, 1, Len(t.free) - 1)]
                   ELSE [t EXCEPT !.n = Append(t.n, nd)]
SetChild(t, p, left, k) == IF left THEN [t EXCEPT !.n[p].l = k] ELSE [t EXCEPT !.n[p].r = k]
Relink(t, p, old, new) == IF t.n[p].l = old THEN [t EXCEPT !.n[p].l = new] ELSE [t EXCEPT !.n[p].r = new]

(* nv is the new list at the prefix *)
RECURSIVE Go(_, _, _, _)
Go(t, p, id, nv) ==
  LET left == Left(id)
      k == IF left THEN t.n[p].l ELSE t.n[p].r
  IN IF k = 0 THEN SetChild(Alloc(t, Node(id, nv)), p, left, AllocSlot(t))
     ELSE LET nd == t.n[k]
              mc == Common(nd.b, id)
          IN IF mc = Len(id) /\ mc = Len(nd.b) THEN [t EXCEPT !.n[k].v = nv]
             ELSE IF mc = Len(id) THEN            \* a new node between parent and k
                  LET j == AllocSlot(t)
                      t1 == Alloc(t, Node(id, nv))
                      t2 == [t1 EXCEPT !.n[k].b = Drop(nd.b, mc)]
                      t3 == SetChild(t2, j, Left(Drop(nd.b, mc)), k)
                  IN Relink(t3, p, k, j)
             ELSE IF mc = Len(nd.b) THEN Go(t, k, Drop(id, mc), nv)
             ELSE LET j == AllocSlot(t)           \* k splits: a valueless node for the common bits
                      t1 == Alloc(t, Node(SubSeq(id, 1, mc), << >>))
                      x == AllocSlot(t1)
                      t2 == Alloc(t1, Node(Drop(id, mc), nv))
                      t3 == [t2 EXCEPT !.n[k].b = Drop(nd.b, mc)]
                      t4 == SetChild(SetChild(t3, j, Left(t3.n[k].b), k), j, ~Left(t3.n[k].b), x)
                  IN Relink(t4, p, k, j)
AddPT(t, id, nv) == IF id = "" THEN [t EXCEPT !.n[1].v = nv] ELSE Go(t, 1, id, nv)

RECURSIVE Find(_, _, _)        \* <<parent, slot>> of the node of a prefix, slot 0 if none
Find(t, p, id) ==
  LET k == IF Left(id) THEN t.n[p].l ELSE t.n[p].r
  IN IF k = 0 THEN <<p, 0>>
     ELSE LET mc == Common(t.n[k].b, id)
          IN IF mc < Len(t.n[k].b) THEN <<p, 0>>
             ELSE IF mc = Len(id) THEN <<p, k>> ELSE Find(t, k, Drop(id, mc))

Release(t, k) == [n |-> [t.n EXCEPT ![k].l = 0, ![k].r = 0], free |-> Append(t.free, k)]
Compact(t, p, k) ==
  LET nd == t.n[k] IN
  IF k = 1 \/ nd.v # << >> \/ (nd.l # 0 /\ nd.r # 0) THEN t
  ELSE IF nd.l # 0 \/ nd.r # 0
       THEN LET ch == IF nd.l # 0 THEN nd.l ELSE nd.r        \* the only child takes its place
                t1 == [t EXCEPT !.n[ch].b = nd.b \o @]
            IN Release(Relink(t1, p, k, ch), k)
       ELSE LET t1 == Relink(t, p, k, 0)
                sib == IF t.n[p].l = k THEN t.n[p].r ELSE t.n[p].l
            IN IF p > 1 /\ t.n[p].v = << >> /\ sib # 0
               THEN LET s == t.n[sib]                        \* the parent absorbs the sibling
                        t2 == [t1 EXCEPT !.n[p] = [l |-> s.l, r |-> s.r, b |-> t.n[p].b \o s.b, v |-> s.v],
                                         !.n[sib].v = << >>,
                                         !.free = Append(@, sib)]
                    IN Release(t2, k)
               ELSE Release(t1, k)
DelPT(t, id, nv) ==
  LET f == IF id = "" THEN <<0, 1>> ELSE Find(t, 1, id)
      k == f[2]
  IN IF k = 0 THEN t
     ELSE IF t.n[k].v = << >> THEN t
     ELSE Compact([t EXCEPT !.n[k].v = nv], f[1], k)

RECURSIVE Walk(_, _, _)        \* <<prefix, list>> in iteration order
Walk(t, k, pre) ==
  IF k = 0 THEN << >>
  ELSE LET p == pre \o t.n[k].b IN
       (IF t.n[k].v = << >> THEN << >> ELSE <<<<p, t.n[k].v>>>>) \o Walk(t, t.n[k].l, p) \o Walk(t, t.n[k].r, p)
Pairs(t) == Walk(t, 1, "")
Abs(t) == LET q == Pairs(t) IN [p \in {q[j][1] : j \in 1..Len(q)} |-> q[CHOOSE j \in 1..Len(q) : q[j][1] = p][2]]

RECURSIVE Reach(_, _)
Reach(t, k) == IF k = 0 THEN {} ELSE {k} \cup Reach(t, t.n[k].l) \cup Reach(t, t.n[k].r)
Elems(q) == {q[j] : j \in 1..Len(q)}
WellFormed(t) ==
  LET R == Reach(t, 1) IN
  /\ R \cap Elems(t.free) = {} /\ R \cup Elems(t.free) = 1..Len(t.n)        \* no slot lost, none used twice
  /\ Cardinality(Elems(t.free)) = Len(t.free)
  /\ \A k \in R \ {1} : /\ t.n[k].b # ""
                        /\ t.n[k].v # << >> \/ (t.n[k].l # 0 /\ t.n[k].r # 0)  \* compact
  /\ \A k \in R : /\ t.n[k].l # 0 => Left(t.n[t.n[k].l].b)
                  /\ t.n[k].r # 0 => ~Left(t.n[t.n[k].r].b)
=============================================================================
