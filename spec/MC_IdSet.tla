------------------------------ MODULE MC_IdSet -------------------------------
(* The builder as it is built: pending additions, and removals that apply to    *)
(* all of them; adding after removing settles what is pending first. Checks,    *)
(* for every history over a small id space, that this computes plain set        *)
(* algebra and that the tries of IdSet represent it; prints the transitions.    *)
EXTENDS IdSet, Json, IOUtils
CONSTANTS C, MaxIn, MaxOut       \* cells of the id space, bounds on what is pending
Emit == "EMIT" \in DOMAIN IOEnv
Cells == 0..(C - 1)
Rng == {<<a, b>> \in Cells \X Cells : a <= b}
Un(R) == UNION {r[1]..r[2] : r \in R}
Runs(X) == {r \in Rng : r[1]..r[2] \subseteq X /\ (r[1] - 1) \notin X /\ (r[2] + 1) \notin X}

VARIABLES in, out, abs, last
vars == <<in, out, abs, last>>
View == <<in, out>>
Settle == <<Runs(Un(in) \ Un(out)), {}>>
Init == in = {} /\ out = {} /\ abs = {} /\ last = [op |-> "none", x |-> 0, y |-> 0]
Add(r) == LET s == IF out # {} THEN Settle ELSE <<in, out>>
          IN /\ in' = s[1] \cup {r} /\ out' = s[2] /\ abs' = abs \cup r[1]..r[2]
             /\ last' = [op |-> "AddRange", x |-> r[1], y |-> r[2]]
Rem(r) == /\ in' = in /\ out' = out \cup {r} /\ abs' = abs \ r[1]..r[2]
          /\ last' = [op |-> "RemoveRange", x |-> r[1], y |-> r[2]]
Build == /\ in' = Settle[1] /\ out' = {} /\ abs' = abs /\ last' = [op |-> "Build", x |-> 0, y |-> 0]
Next == \/ \E r \in Rng : Add(r) /\ Cardinality(in') <= MaxIn
        \/ \E r \in Rng : Rem(r) /\ Cardinality(out') <= MaxOut
        \/ Build
Spec == Init /\ [][Next]_vars

Algebra == Un(in) \ Un(out) = abs

(* the same set as a trie over W bits, W = 2: cells are ids *)
Name == <<"00", "01", "10", "11">>
RECURSIVE TrieOf(_, _)
TrieOf(t, X) == IF X = {} THEN t ELSE LET x == CHOOSE y \in X : TRUE IN TrieOf(SetP(t, Name[x + 1], TF), X \ {x})
Id4 == 0..3
Rng4 == {<<a, b>> \in Id4 \X Id4 : a <= b}
RunsOf(X) == {r \in Rng4 : r[1]..r[2] \subseteq X /\ (r[1] - 1) \notin X /\ (r[2] + 1) \notin X}
TrieExact(X) ==
  LET T == TrieOf(TE, X) IN
  /\ \A x \in Id4 : Within(T, Name[x + 1], 1) <=> x \in X
  /\ LET q == RangesOf(2, T) IN
     {<<q[k][1], q[k][2]>> : k \in 1..Len(q)} = {<<Name[r[1] + 1], Name[r[2] + 1]>> : r \in RunsOf(X)}
  /\ \A l \in 0..2 : HasPrefix(T, l) <=> \E r \in Rng4 : /\ r[1]..r[2] \subseteq X
                                                         /\ Cardinality(r[1]..r[2]) = 2 ^ (2 - l)
                                                         /\ r[1] % (2 ^ (2 - l)) = 0
  /\ \A r \in Rng4 : /\ SetRange(2, T, Name[r[1] + 1], Name[r[2] + 1], TF) = TrieOf(TE, X \cup r[1]..r[2])
                     /\ SetRange(2, T, Name[r[1] + 1], Name[r[2] + 1], TE) = TrieOf(TE, X \ r[1]..r[2])
ASSUME \A X \in SUBSET Id4 : TrieExact(X)
EmitStep == Emit => PrintT(<<"EDGE", ToJson([from |-> ToString(View), to |-> ToString(<<in', out'>>), e |-> last'])>>)
=============================================================================
