------------------------------ MODULE TraceIdSet -----------------------------
(* Judges recorded histories of id-set builders and sets against IdSet.        *)
EXTENDS IdSet, Json, IOUtils
Log  == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
VARIABLES i, w, st, lost
vars == <<i, w, st, lost>>
Panicked(e) == "panic" \in DOMAIN e.r
Judge(e) == IF Panicked(e) THEN {"panic"} ELSE IF RetOK(w, st, e, e.r) THEN {} ELSE {"result"}
Report(n, e) == LET j == Judge(e) IN IF j = {} THEN TRUE ELSE PrintT(<<"VIOL", PROP, n, e.op, j>>)
Init == \E n \in 1..Len(Log) : /\ Log[n].op = "new" /\ i = n /\ w = Log[n].w /\ lost = FALSE
                               /\ st = [b |-> (1 :> [t |-> TE, bad |-> FALSE]), s |-> (0 :> TE)]
Next == LET n == i + 1 IN
        /\ n <= Len(Log) /\ Log[n].op # "new" /\ i' = n /\ w' = w
        /\ LET e == Log[n] IN
           IF lost THEN UNCHANGED <<st, lost>>
           ELSE /\ Report(n, e)
                /\ lost' = (Judge(e) # {})
                /\ st' = IF lost' THEN st ELSE Effect(w, st, e, e.r)
Spec == Init /\ [][Next]_vars
=============================================================================
