------------------------------ MODULE Windows -------------------------------
(* Which concurrent scenarios can tell a call that is one atomic step from    *)
(* one that is not? A scenario is a small object in some state, one call X,    *)
(* and a few calls of another thread while X is running. X is taken apart the  *)
(* way an implementation that does not keep its lock might do it:              *)
(*   - it looks at the ids one after the other, at different moments,          *)
(*   - it settles what to do from what it has seen, later than that: without   *)
(*     a second look ("blind"), or with one after which it gives up ("fail")   *)
(*     or starts over ("retry"),                                              *)
(*   - or it does everything at one moment except for its writes, which it     *)
(*     does one after the other ("pieces", and "stop" at a taken id).          *)
(* A scenario tells the difference when some such run of X gives answers and   *)
(* final contents that X as one step, at whatever moment, does not give.       *)
(* Those (of which no part is already enough) are printed: they are what the   *)
(* concurrent checks run the real code through, under every schedule.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json

CONSTANTS Kind,      \* "table" or "tree"
          N,         \* cells; for a table the ids 0..N-1
          Univ,      \* which prefixes the cells of a tree are
          L          \* calls of the other thread

NONE  == <<"-", "-">>
Cells == 1..N
Pfx == CASE Univ = "none"  -> [k \in Cells |-> ""]
         [] Univ = "cover" -> <<"", "0", "1">>        \* an id space of two ids
         [] Univ = "chain" -> <<"", "0", "00">>       \* of four: one inside the other
         [] Univ = "range" -> <<"01", "1", "10">>     \* the range 1-2 is the first and the last
Bits == IF Univ = "cover" THEN 1 ELSE 2
CoversP(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

Table == Kind = "table"
(* ---- calls: k is a cell, z a size, l the label of the value written *)
C(op, k, z, l) == [op |-> op, k |-> k, z |-> z, l |-> l]
Labelled == {"GetByLabel", "ReleaseByLabel"}
Wide ==
  IF Table
  THEN {C(op, 0, 0, "x") : op \in {"GetAll", "Iterate", "IterateFree", "Size", "FindFree", "ClaimDyn", "GetByLabel"}}
       \cup {C(op, 0, z, "x") : op \in {"FindFreeSize", "ClaimSize"}, z \in 2..N}
       \cup {C(op, k, z, "x") : op \in {"FindFreeRange", "ClaimRange"}, k \in Cells, z \in {y \in 2..N : TRUE}}
       \cup {C(op, k, 0, "x") : op \in {"Claim", "Update"}, k \in Cells}
  ELSE {C(op, 0, 0, "x") : op \in {"GetAll", "Size", "GetByLabel", "ReleaseByLabel", "Clone"}}
       \cup (IF Univ = "cover" THEN {C("Children", 1, 0, "x"), C("ClaimFree", 0, 0, "x")} ELSE {})
       \cup (IF Univ = "chain" THEN {C("Parents", 3, 0, "x"), C("Children", 1, 0, "x")} ELSE {})
       \cup (IF Univ = "range" THEN {C("ClaimRange", 0, 0, "x")} ELSE {})
Fits(e) == (e.op \in {"FindFreeRange", "ClaimRange"} /\ Table) => e.k + e.z <= N + 1
Labels(x) == IF x.op \in Labelled THEN {"x", "y"} ELSE {"x"}
Others(x) == {C(op, k, 0, l) : op \in {"Claim", "Update"}, k \in Cells, l \in Labels(x)}
             \cup {C(op, k, 0, "x") : op \in {"Release", "Get"}, k \in Cells}
             \cup {C("GetAll", 0, 0, "x")}
             \cup (IF Table THEN {C("ClaimDyn", 0, 0, "x")} ELSE {})

(* ---- what a call answers and does, as one step on contents t (cell -> value) *)
FreeOf(t) == {c \in Cells : t[c] = NONE}
Low(t, n) == {c \in FreeOf(t) : Cardinality({d \in FreeOf(t) : d < c}) < n}
Run(e)    == e.k..(e.k + e.z - 1)
Match(t, l) == {c \in Cells : t[c][2] = l}
Only(t, S)  == [c \in Cells |-> IF c \in S THEN t[c] ELSE NONE]
Within(e) == CASE e.op = "Children" -> {c \in Cells : c # e.k /\ CoversP(Pfx[e.k], Pfx[c])}
               [] e.op = "Parents"  -> {c \in Cells : c # e.k /\ CoversP(Pfx[c], Pfx[e.k])}
               [] OTHER -> Cells
(* ids of a two id space that nothing covers (universe "cover") *)
Uncovered(t) == {c \in {2, 3} : t[c] = NONE /\ t[1] = NONE}

Ok(b) == [ok |-> b]
Found(b, S) == [ok |-> b, x |-> IF b THEN S ELSE {}]
Answer(e, t) ==
  CASE e.op = "Claim"   -> Ok(Table => t[e.k] = NONE)
    [] e.op = "Update"  -> Ok(Table => t[e.k] # NONE)
    [] e.op \in {"Release", "ReleaseByLabel"} -> Ok(TRUE)
    [] e.op = "Get"     -> [x |-> t[e.k]]
    [] e.op \in {"GetAll", "Iterate", "Clone", "Children", "Parents"} -> [x |-> Only(t, Within(e))]
    [] e.op = "GetByLabel"  -> [x |-> Only(t, Match(t, "x"))]
    [] e.op = "IterateFree" -> [x |-> FreeOf(t)]
    [] e.op = "Size"    -> [n |-> N - Cardinality(FreeOf(t))]
    [] e.op \in {"FindFree", "ClaimDyn"} -> Found(FreeOf(t) # {}, Low(t, 1))
    [] e.op = "ClaimFree" -> Found(Uncovered(t) # {}, {Min(Uncovered(t) \cup {9})})
    [] e.op \in {"FindFreeSize", "ClaimSize"} -> Found(Cardinality(FreeOf(t)) >= e.z, Low(t, e.z))
    [] e.op = "FindFreeRange" -> Found(Run(e) \subseteq FreeOf(t), Run(e))
    [] e.op = "ClaimRange" -> Ok(Table => Run(e) \subseteq FreeOf(t))
Targets(e, t) ==
  CASE e.op = "Claim"  -> IF Table /\ t[e.k] # NONE THEN {} ELSE {e.k}
    [] e.op = "Update" -> IF Table /\ t[e.k] = NONE THEN {} ELSE {e.k}
    [] e.op = "Release" -> {e.k}
    [] e.op = "ReleaseByLabel" -> Match(t, "x")
    [] e.op \in {"ClaimDyn", "ClaimFree", "ClaimSize"} -> Answer(e, t).x
    [] e.op = "ClaimRange" -> IF Table THEN (IF Run(e) \subseteq FreeOf(t) THEN Run(e) ELSE {}) ELSE {1, 3}
    [] OTHER -> {}
Put(e, t, S, who) == [c \in Cells |-> IF c \notin S THEN t[c]
                                      ELSE IF e.op \in {"Release", "ReleaseByLabel"} THEN NONE ELSE <<who, e.l>>]

(* ---- runs: the other thread's calls o, X's micro-steps at the moments v     *)
(* a run in progress: contents, what X has seen, X's answer and targets, the    *)
(* answers of the others                                                      *)
Start(t) == [t |-> t, vec |-> [c \in Cells |-> NONE], a |-> Ok(FALSE), w |-> {}, o |-> << >>]
Same(t, vec, S) == \A c \in S : (t[c] = NONE) = (vec[c] = NONE)
Settle(x, q, mode) ==
  LET w == Targets(x, q.vec)
      now == [q EXCEPT !.a = Answer(x, q.t), !.t = Put(x, q.t, Targets(x, q.t), "X")]
      as  == [q EXCEPT !.a = Answer(x, q.vec), !.t = Put(x, q.t, w, "X")]
  IN IF mode = "blind" \/ Same(q.t, q.vec, w) THEN as
     ELSE IF mode = "fail" THEN [q EXCEPT !.a = IF "x" \in DOMAIN Answer(x, q.vec) THEN Found(FALSE, {}) ELSE Ok(FALSE)]
     ELSE now
(* micro-step number j of X in a design *)
Micro(x, q, j, design) ==
  IF design \in {"blind", "fail", "retry"}
  THEN IF j <= N THEN [q EXCEPT !.vec[j] = q.t[j]] ELSE Settle(x, q, design)
  ELSE \* "pieces", "stop": decide first, then a write after the other
       IF j = 1 THEN [q EXCEPT !.a = Answer(x, q.t), !.w = Targets(x, q.t)]
       ELSE LET c == j - 1 IN
            IF c \notin q.w THEN q
            ELSE IF design = "stop" /\ q.t[c] # NONE
                 THEN [q EXCEPT !.a = IF "x" \in DOMAIN q.a THEN Found(FALSE, {}) ELSE Ok(FALSE), !.w = {}]
            ELSE [q EXCEPT !.t = Put(x, q.t, {c}, "X")]
Other(q, e, i) == [q EXCEPT !.o = Append(@, Answer(e, q.t)), !.t = Put(e, q.t, Targets(e, q.t), ToString(i))]

RECURSIVE Go(_, _, _, _, _, _, _)
Go(x, o, v, design, q, j, g) ==           \* j micro-steps done, g calls of the other thread done
  IF j < Len(v) /\ v[j+1] = g THEN Go(x, o, v, design, Micro(x, q, j + 1, design), j + 1, g)
  ELSE IF g < Len(o) THEN Go(x, o, v, design, Other(q, o[g+1], g + 1), j, g + 1)
  ELSE [x |-> q.a, o |-> q.o, t |-> q.t]

Moments(m, n) == {v \in [1..m -> 0..n] : \A j \in 1..(m-1) : v[j] <= v[j+1]}
Vecs == [m \in 2..(N+1) |-> [n \in 0..L |-> Moments(m, n)]]
Designs(x) == IF x.op \in {"ClaimDyn", "ClaimFree", "ClaimSize", "Claim", "Update"} \/ (Table /\ x.op = "ClaimRange") THEN {"blind", "fail", "retry", "pieces", "stop"}
              ELSE IF x.op \in {"ClaimRange", "ReleaseByLabel"} THEN {"blind", "pieces"}
              ELSE {"blind"}
(* one step, at moment g; ClaimFree may take any free id *)
Atomic(x, o, t) ==
  LET run(g, S) == \* X at moment g, taking S
        LET RECURSIVE to(_, _, _)
            to(q, a, b) == IF a = b THEN q ELSE to(Other(q, o[a+1], a + 1), a + 1, b)
            q1 == to(Start(t), 0, g)
            q2 == IF x.op # "ClaimFree" THEN [q1 EXCEPT !.a = Answer(x, q1.t), !.t = Put(x, q1.t, Targets(x, q1.t), "X")]
                  ELSE IF Uncovered(q1.t) = {} THEN [q1 EXCEPT !.a = Found(FALSE, {})]
                  ELSE IF S \in Uncovered(q1.t) THEN [q1 EXCEPT !.a = Found(TRUE, {S}), !.t = Put(x, q1.t, {S}, "X")]
                  ELSE [q1 EXCEPT !.a = [none |-> 0]]
            q3 == to(q2, g, Len(o))
        IN [x |-> q3.a, o |-> q3.o, t |-> q3.t]
  IN {run(g, S) : g \in 0..Len(o), S \in (IF x.op = "ClaimFree" THEN {2, 3} ELSE {2})}
Tells(x, o, t) ==
  LET A == Atomic(x, o, t) IN
  \E d \in Designs(x) : \E v \in Vecs[N + 1][Len(o)] : Go(x, o, v, d, Start(t), 0, 0) \notin A
DropAt(o, k) == SubSeq(o, 1, k - 1) \o SubSeq(o, k + 1, Len(o))
Minimal(x, o, t) == \A k \in 1..Len(o) : ~Tells(x, DropAt(o, k), t)

---------------------------------------------------------------------------
VARIABLES x, t, o
Init == /\ x \in {e \in Wide : Fits(e)}
        /\ t \in [Cells -> {NONE} \cup {<<"I", l>> : l \in Labels(x)}]
        /\ o = << >>
Emit(q) == PrintT(<<"EDGE", ToJson([x |-> x, o |-> q, t |-> [c \in Cells |-> t[c][2]], u |-> Univ, bits |-> Bits])>>)
Next == /\ o = << >>
        /\ \E q \in UNION {[1..m -> Others(x)] : m \in 1..L} :
             /\ Tells(x, q, t) /\ Minimal(x, q, t)
             /\ Emit(q)
             /\ o' = q /\ UNCHANGED <<x, t>>
Spec == Init /\ [][Next]_<<x, t, o>>
=============================================================================
