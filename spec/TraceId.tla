------------------------------- MODULE TraceId -------------------------------
(* Judges recorded answers of the id and range types against IdAlgebra. Calls  *)
(* are pure, so there is no state but the place in the log.                    *)
EXTENDS IdAlgebra, Json, IOUtils
Log  == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
VARIABLES i

PropOps == [I01 |-> {"RangeIDs", "RangeOfID", "Mask", "Masked", "Parse"},
            I03 |-> {"Next", "Prev", "Matches", "ShiftLeft", "LeftBit", "Compare", "Overlaps", "Text", "Relate", "Bounds"},
            I04 |-> {"Entry", "EntryEq", "Merge"}]
Panicked(e) == "panic" \in DOMAIN e.r
Report(n, e) == IF PROP = "I04" /\ ~Kept(e.r) THEN PrintT(<<"VIOL", PROP, n, e.op, {"argument changed"}>>)
                ELSE IF e.op \notin PropOps[PROP] THEN TRUE
                ELSE IF Panicked(e) THEN PrintT(<<"VIOL", PROP, n, e.op, {"panic"}>>)
                ELSE IF AnswerOK(e, e.r) THEN TRUE ELSE PrintT(<<"VIOL", PROP, n, e.op, {"result"}>>)
Init == \E n \in 1..Len(Log) : Log[n].op = "new" /\ i = n
Next == LET n == i + 1 IN /\ n <= Len(Log) /\ Log[n].op # "new" /\ i' = n /\ Report(n, Log[n])
Spec == Init /\ [][Next]_i
=============================================================================
