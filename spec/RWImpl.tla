------------------------------- MODULE RWImpl -------------------------------
(* How the tables and trees synchronise: every call is a little program over  *)
(* shared cells (one per id) and reader-writer locks, and processes run their  *)
(* programs in any interleaving, over and over. The locks are those of Go's    *)
(* package sync: a writer that waits keeps new readers out, and the readers    *)
(* that were waiting when a writer leaves go first.                            *)
(*                                                                           *)
(* A monitor follows the sequential specification (IdTable) alongside: M is    *)
(* the set of explanations still possible, each the contents of an abstract    *)
(* table and the answers of the pending calls that have already taken effect   *)
(* in it. A call may return an answer only if some explanation has it; no       *)
(* explanation left means the history is not linearizable. As M ranges over a  *)
(* finite set, histories of every length are covered.                          *)
(*                                                                           *)
(* Design selects the programs:                                               *)
(*   "one"     one lock around the whole call (idxtable, iptable, the trees)   *)
(*   "two"     the numeric id tables: claims, dynamic claims and releases      *)
(*             behind an outer lock, every step on the cells behind the inner   *)
(*             one of the index table, updates and reads behind the inner only  *)
(* and designs that must fail, which show what the monitor sees:              *)
(*   "window"  "two" without the outer lock (choose, then claim)               *)
(*   "pieces"  a listing that takes the lock once per id                       *)
(*   "nested"  a listing that takes the read lock again inside itself          *)
(*   "bare"    a listing without a lock                                        *)
(*   "leak"    a refused update that keeps the lock                            *)
EXTENDS IdTable

CONSTANTS N, p1, p2, p3, Procs, Design, Ops

c == [kind |-> "idx", n |-> N, w |-> 0, cap |-> N]
Cells == 0..(N-1)
CONSTANT NONE                           \* a free cell; otherwise it holds the process that claimed it
Dat(k) == [l |-> << >>, d |-> k]
Abs(t) == [x \in {y \in Cells : t[y] # NONE} |-> Dat(t[x])]

Calls(p) ==
  {e \in [op : {"Claim", "Update"}, id : Cells, v : {p}]
         \cup [op : {"Release", "Get"}, id : Cells]
         \cup [op : {"GetAll", "Size", "FindFree"}]
         \cup [op : {"ClaimDyn"}, v : {p}]
         \cup [op : {"ClaimRange"}, id : {0}, size : {N}, v : {p}]
         \cup [op : {"ClaimSize"}, size : {2}, v : {p}]
     : e.op \in Ops}

(* the one answer of a call on contents t, and the contents after it (over cells) *)
Args(e) == IF "v" \in DOMAIN e THEN [e EXCEPT !.v = Dat(e.v)] ELSE e
After(e, t) ==
  LET a == Effect(c, Abs(t), Args(e), [ok |-> TRUE])
  IN [x \in Cells |-> IF x \notin DOMAIN a THEN NONE
                      ELSE IF x \in DOMAIN Abs(t) /\ a[x] = Abs(t)[x] THEN t[x] ELSE e.v]
Low(t, k) == {x \in Cells : t[x] = NONE /\ Cardinality({y \in Cells : y < x /\ t[y] = NONE}) < k}
Answer(e, t) ==
  CASE e.op = "Claim"      -> [ok |-> t[e.id] = NONE]
    [] e.op = "Release"    -> [ok |-> TRUE]
    [] e.op = "Update"     -> [ok |-> t[e.id] # NONE]
    [] e.op = "Get"        -> [ok |-> t[e.id] # NONE, x |-> t[e.id]]
    [] e.op = "Size"       -> [n |-> Cardinality({x \in Cells : t[x] # NONE})]
    [] e.op = "FindFree"   -> [ok |-> Low(t, 1) # {}, x |-> Low(t, 1)]
    [] e.op = "ClaimDyn"   -> [ok |-> Low(t, 1) # {}, x |-> Low(t, 1)]
    [] e.op = "ClaimRange" -> [ok |-> \A x \in Cells : t[x] = NONE]
    [] e.op = "ClaimSize"  -> LET X == Low(t, 2) IN [ok |-> Cardinality(X) = 2, x |-> IF Cardinality(X) = 2 THEN X ELSE {}]
    [] e.op = "GetAll"     -> [x |-> t]

---------------------------------------------------------------------------
(* Programs. A step is <<what, lock or cell>>.                               *)
Reads   == {"Get", "Size", "FindFree", "GetAll"}
Needs(e) == IF "id" \in DOMAIN e /\ e.op # "ClaimRange" THEN <<e.id>> ELSE Asc(Cells)
Looks(e) == [k \in 1..Len(Needs(e)) |-> <<"look", Needs(e)[k]>>]
Puts(e)  == [k \in 1..Len(Needs(e)) |-> <<"put", Needs(e)[k]>>]
Do       == << <<"decide", 0>> >>
Rd(l, q) == << <<"rlock", l>> >> \o q \o << <<"runlock", l>> >>
Wr(l, q) == << <<"lock", l>> >> \o q \o << <<"unlock", l>> >>
One(e)   == IF e.op \in Reads THEN Rd("i", Looks(e) \o Do) ELSE Wr("i", Looks(e) \o Do \o Puts(e))
Write(e) == Wr("i", Looks(e) \o << <<"settle", 0>> >> \o Puts(e))
Chosen   == << <<"look", -1>>, <<"settle", 0>>, <<"put", -1>> >>   \* the cell the call has chosen
Two(e)   == CASE e.op = "Claim"    -> Rd("i", Looks(e) \o Do) \o Write(e)
              [] e.op = "ClaimDyn" -> Rd("i", Looks(e) \o Do) \o Wr("i", Chosen)
              [] e.op = "GetAll"   -> Rd("i", << >>) \o One(e)
              [] OTHER             -> One(e)
Prog(e) ==
  CASE Design = "one"    -> One(e)
    [] Design = "two"    -> IF e.op \in {"Claim", "ClaimDyn", "Release"} THEN Wr("o", Two(e)) ELSE Two(e)
    [] Design = "window" -> Two(e)
    [] Design = "pieces" -> IF e.op = "GetAll" THEN FoldSeq(LAMBDA s, acc : acc \o Rd("i", <<s>>), << >>, Looks(e)) \o Do ELSE One(e)
    [] Design = "nested" -> IF e.op = "GetAll" THEN Rd("i", Rd("i", Looks(e)) \o Do) ELSE One(e)
    [] Design = "bare"   -> IF e.op = "GetAll" THEN Looks(e) \o Do ELSE One(e)
    [] Design = "leak"   -> One(e)

VARIABLES tab,    \* the cells
          lk,     \* the locks: readers inside (a bag), the writer inside, writers and readers waiting
          st,     \* per process: the call, the steps left, what it has seen, its answer, what it will write
          M       \* the explanations left
vars == <<tab, lk, st, M>>

Locks == {"o", "i"}
Idle  == [e |-> [op |-> "none"], q |-> << >>, loc |-> << >>, ans |-> << >>, upd |-> << >>, new |-> FALSE]
Init == /\ tab = [x \in Cells |-> NONE]
        /\ lk = [l \in Locks |-> [r |-> [p \in Procs |-> 0], w |-> {}, wait |-> {}, rwait |-> {}]]
        /\ st = [p \in Procs |-> Idle]
        /\ M = {[t |-> [x \in Cells |-> NONE], d |-> << >>]}
Pending == {p \in Procs : st[p].e.op # "none"}

Invoke(p) == /\ st[p] = Idle
             /\ \E e \in Calls(p) : st' = [st EXCEPT ![p] = [Idle EXCEPT !.e = e, !.q = Prog(e), !.new = TRUE]]
             /\ UNCHANGED <<tab, lk, M>>

(* explanations after any of the pending calls took effect *)
Place(m) == {[t |-> After(st[p].e, m.t), d |-> (p :> Answer(st[p].e, m.t)) @@ m.d] : p \in Pending \ DOMAIN m.d}
RECURSIVE Close(_)
Close(X) == LET Y == X \cup UNION {Place(m) : m \in X} IN IF Y = X THEN X ELSE Close(Y)
Drop(p, d) == [x \in DOMAIN d \ {p} |-> d[x]]
Return(p) == /\ st[p].e.op # "none" /\ st[p].q = << >>
             /\ M' = {[m EXCEPT !.d = Drop(p, m.d)] : m \in {x \in Close(M) : p \in DOMAIN x.d /\ x.d[p] = st[p].ans}}
             /\ st' = [st EXCEPT ![p] = Idle]
             /\ UNCHANGED <<tab, lk>>

Free(l)     == lk[l].w = {} /\ \A p \in Procs : lk[l].r[p] = 0
NoReader(l) == \A p \in Procs : lk[l].r[p] = 0
Local(p) == [x \in Cells |-> IF x \in DOMAIN st[p].loc THEN st[p].loc[x] ELSE NONE]
Cell(p, x) == IF x >= 0 THEN {x} ELSE IF "x" \in DOMAIN st[p].ans THEN st[p].ans.x ELSE {}
(* what a call has seen does not matter once it neither decides nor writes *)
Trim(f) == IF \E k \in 1..Len(f.q) : f.q[k][1] \in {"look", "put", "decide", "settle"} THEN f ELSE [f EXCEPT !.loc = << >>, !.upd = << >>]
Go(p, f) == st' = [st EXCEPT ![p] = Trim([f EXCEPT !.q = Tail(f.q), !.new = FALSE])]
Waits(p) == st' = [st EXCEPT ![p].new = FALSE] /\ UNCHANGED tab
Keeps(p, l) == Design = "leak" /\ l = "i" /\ st[p].e.op = "Update" /\ ~st[p].ans.ok

RLock(p, l) ==
  \/ /\ lk[l].w = {} /\ lk[l].wait = {} /\ p \notin lk[l].rwait
     /\ lk' = [lk EXCEPT ![l].r[p] = @ + 1] /\ Go(p, st[p]) /\ UNCHANGED tab
  \/ /\ ~(lk[l].w = {} /\ lk[l].wait = {}) /\ p \notin lk[l].rwait        \* starts to wait
     /\ lk' = [lk EXCEPT ![l].rwait = @ \cup {p}] /\ Waits(p)
RUnlock(p, l) == lk' = [lk EXCEPT ![l].r[p] = @ - 1] /\ Go(p, st[p]) /\ UNCHANGED tab
Lock(p, l) ==
  \/ /\ p \notin lk[l].wait /\ ~Free(l)
     /\ lk' = [lk EXCEPT ![l].wait = @ \cup {p}] /\ Waits(p)
  \/ /\ Free(l)
     /\ lk' = [lk EXCEPT ![l].wait = @ \ {p}, ![l].w = {p}] /\ Go(p, st[p]) /\ UNCHANGED tab
(* the readers waiting when the writer leaves are inside at once *)
Unlock(p, l) ==
  IF Keeps(p, l) THEN Go(p, st[p]) /\ UNCHANGED <<tab, lk>>
  ELSE /\ lk' = [lk EXCEPT ![l].w = {}, ![l].rwait = {},
                           ![l].r = [x \in Procs |-> IF x \in lk[l].rwait THEN @[x] + 1 ELSE @[x]]]
       /\ st' = [x \in Procs |-> IF x = p \/ x \in lk[l].rwait THEN [st[x] EXCEPT !.q = Tail(@)] ELSE st[x]]
       /\ UNCHANGED tab

Step(p) ==
  /\ st[p].q # << >>
  /\ LET s == Head(st[p].q) k == s[1] x == s[2] f == st[p] IN
     CASE k = "rlock"   -> RLock(p, x)
       [] k = "runlock" -> RUnlock(p, x)
       [] k = "lock"    -> Lock(p, x)
       [] k = "unlock"  -> Unlock(p, x)
       [] k = "look"    -> /\ Go(p, [f EXCEPT !.loc = [y \in Cell(p, x) |-> tab[y]] @@ @])
                           /\ UNCHANGED <<tab, lk>>
       [] k = "decide"  -> /\ Go(p, [f EXCEPT !.ans = Answer(f.e, Local(p)), !.upd = After(f.e, Local(p))])
                           /\ UNCHANGED <<tab, lk>>
       [] k = "settle"  -> \* decides again on what it sees now; what it found before stands when it was a refusal
            LET e == IF f.e.op = "ClaimDyn" THEN [op |-> "Claim", id |-> IF f.ans.ok THEN CHOOSE y \in f.ans.x : TRUE ELSE 0, v |-> p] ELSE f.e
                a == Answer(e, Local(p))
            IN /\ Go(p, [f EXCEPT !.ans = IF ~@.ok \/ a.ok THEN @ ELSE IF f.e.op = "ClaimDyn" THEN [ok |-> FALSE, x |-> {}] ELSE a,
                                    !.upd = IF f.ans.ok /\ a.ok THEN After(e, Local(p)) ELSE Local(p)])
               /\ UNCHANGED <<tab, lk>>
       [] k = "put"     -> /\ LET Y == Cell(p, x) IN
                              tab' = [y \in Cells |-> IF y \in Y /\ f.upd[y] # Local(p)[y] THEN f.upd[y] ELSE tab[y]]
                           /\ Go(p, f) /\ UNCHANGED lk
  /\ M' = M

(* Fewer interleavings, none that matters less: a local step takes no time, a call returns as soon as it
   can and is invoked when it takes its first step (both only make real time stricter). *)
Urgent(p) == st[p].e.op # "none" /\ (IF st[p].q = << >> THEN TRUE ELSE st[p].new \/ Head(st[p].q)[1] \in {"decide", "settle"})
Next == LET U == {p \in Procs : Urgent(p)}
            R == IF U = {} THEN Procs ELSE {CHOOSE p \in U : TRUE}
        IN \E p \in R : Invoke(p) \/ Step(p) \/ Return(p)
Spec == Init /\ [][Next]_vars
(* a process that runs is scheduled; a lock that is free again and again is given to each that waits *)
Fair == \A p \in Procs : WF_vars(Step(p) \/ Return(p)) /\ SF_vars(Step(p))
FairSpec == Spec /\ Fair

---------------------------------------------------------------------------
Perms == Permutations(Procs)
Linearizable == M # {}
(* with nobody inside a call the table is what one explanation says *)
Settled == Pending = {} => \E m \in M : m.t = tab
LocksOK == \A l \in Locks : /\ Cardinality(lk[l].w) <= 1
                            /\ lk[l].w # {} => NoReader(l)
                            /\ \A p \in Procs : lk[l].r[p] >= 0
(* cells are only written behind the inner lock, and never beside a reader of it: no data race *)
Touch(p) == IF st[p].q = << >> THEN {} ELSE IF Head(st[p].q)[1] \in {"look", "put"} THEN Cell(p, Head(st[p].q)[2]) ELSE {}
Puts2(p) == st[p].q # << >> /\ Head(st[p].q)[1] = "put"
NoRace == \A p, q \in Procs : p # q /\ Puts2(p) => Touch(p) \cap Touch(q) = {}
Returns == \A p \in Procs : (st[p].e.op # "none") ~> (st[p].e.op = "none")
(* a dynamic claim is refused only if some moment of the call had no free id: part of Linearizable,
   and ids held by two at once are excluded by it too *)
=============================================================================
