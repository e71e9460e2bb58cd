-------------------------------- MODULE Race --------------------------------
(* Judges what concurrent calls on one table or tree did to shared memory.    *)
(* A recorded run is a sequence of events: a thread takes or gives back a      *)
(* lock (wl, wu: for writing; rl, ru: for reading) or reads and writes memory  *)
(* cells (acc: r, w are sets of cells). Cells only one thread touches, and     *)
(* cells nobody writes, were left out by the recorder: they take no part.      *)
(*                                                                           *)
(* The state is the happens-before order of the memory model, as clocks:       *)
(*   C[t][u]   how many events of thread u happen before the next one of t     *)
(*   LW[l]     clock of the last release of l by a writer                      *)
(*   LR[l]     join of the clocks of the releases of l by readers              *)
(*   aw, ar    last write of a cell, and last reads of it per thread           *)
(* An access is allowed when every earlier conflicting access happens before   *)
(* it. Lock events must also be those of a correct reader-writer lock.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, p, C, LW, LR, held, aw, ar
vars == <<h, p, C, LW, LR, held, aw, ar>>

Threads(g) == 0..(Log[g].threads - 1)
Max(a, b) == IF a > b THEN a ELSE b
Join(x, y) == [u \in DOMAIN x |-> Max(x[u], y[u])]
SetOf(q) == {q[k] : k \in 1..Len(q)}
Zero(g) == [u \in Threads(g) |-> 0]

Init == \E g \in 1..Len(Log) :
          /\ h = g /\ p = 0
          /\ C = [t \in Threads(g) |-> [u \in Threads(g) |-> IF u = t THEN 1 ELSE 0]]
          /\ LW = [l \in 1..Log[g].locks |-> Zero(g)] /\ LR = [l \in 1..Log[g].locks |-> Zero(g)]
          /\ held = [l \in 1..Log[g].locks |-> [w |-> {}, r |-> {}]]
          /\ aw = [a \in 1..Log[g].cells |-> [t |-> 0, c |-> 0]]
          /\ ar = [a \in 1..Log[g].cells |-> Zero(g)]

Before(t, u, c) == u = t \/ c <= C[t][u]
ReadOK(t, a)  == Before(t, aw[a].t, aw[a].c)
WriteOK(t, a) == ReadOK(t, a) /\ \A u \in Threads(h) : Before(t, u, ar[a][u])
Racy(e) == {a \in SetOf(e.r) : ~ReadOK(e.t, a)} \cup {a \in SetOf(e.w) : ~WriteOK(e.t, a)}
LockOK(e) == CASE e.k = "wl" -> held[e.l].w = {} /\ held[e.l].r = {}
               [] e.k = "rl" -> held[e.l].w = {}
               [] e.k = "wu" -> held[e.l].w # {}
               [] e.k = "ru" -> held[e.l].r # {}
               [] OTHER -> TRUE

(* after a release the thread starts a new epoch *)
Tick(t, x) == [x EXCEPT ![t] = @ + 1]

Step(e) ==
  CASE e.k = "acc" ->
         /\ IF Racy(e) = {} THEN TRUE ELSE PrintT(<<"RACE", h, p + 1, Racy(e)>>)
         /\ aw' = [a \in DOMAIN aw |-> IF a \in SetOf(e.w) THEN [t |-> e.t, c |-> C[e.t][e.t]] ELSE aw[a]]
         /\ ar' = [a \in DOMAIN ar |-> IF a \in SetOf(e.r) THEN [ar[a] EXCEPT ![e.t] = C[e.t][e.t]] ELSE ar[a]]
         /\ UNCHANGED <<C, LW, LR, held>>
    [] e.k = "wl" -> /\ C' = [C EXCEPT ![e.t] = Join(Join(@, LW[e.l]), LR[e.l])]
                     /\ held' = [held EXCEPT ![e.l].w = {e.t}]
                     /\ UNCHANGED <<LW, LR, aw, ar>>
    [] e.k = "rl" -> /\ C' = [C EXCEPT ![e.t] = Join(@, LW[e.l])]
                     /\ held' = [held EXCEPT ![e.l].r = @ \cup {e.t}]
                     /\ UNCHANGED <<LW, LR, aw, ar>>
    [] e.k = "wu" -> /\ LW' = [LW EXCEPT ![e.l] = C[e.t]]
                     /\ C' = [C EXCEPT ![e.t] = Tick(e.t, @)]
                     /\ held' = [held EXCEPT ![e.l].w = {}]
                     /\ UNCHANGED <<LR, aw, ar>>
    [] e.k = "ru" -> /\ LR' = [LR EXCEPT ![e.l] = Join(@, C[e.t])]
                     /\ C' = [C EXCEPT ![e.t] = Tick(e.t, @)]
                     /\ held' = [held EXCEPT ![e.l].r = @ \ {e.t}]
                     /\ UNCHANGED <<LW, aw, ar>>

Next == /\ p < Len(Log[h].ev)
        /\ LET e == Log[h].ev[p + 1] IN
           /\ Step(e)
           /\ IF LockOK(e) THEN TRUE ELSE PrintT(<<"RACE", h, p + 1, "lock">>)
        /\ p' = p + 1 /\ h' = h
Spec == Init /\ [][Next]_vars
=============================================================================
