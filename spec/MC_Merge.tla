------------------------------- MODULE MC_Merge ------------------------------
(* How a builder settles: the ranges added are sorted and joined, the ranges   *)
(* removed likewise, and one pass over both lists takes the second from the    *)
(* first. The pass and the joining are written down as lists are walked, and   *)
(* TLC checks them against set algebra                                         *)
(*  - for every pair of sets whose membership changes at most L times along    *)
(*    the id space (a word of letters n, a, r, b: in no set, added only,       *)
(*    removed only, in both; no two neighbours alike: a stretch of ids that    *)
(*    are treated alike counts once), and                                      *)
(*  - for every list of at most K ranges over L cells.                         *)
(* Each is printed, to be replayed by the driver in real id spaces.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS L, K
Emit == "EMIT" \in DOMAIN IOEnv

Letters == {"n", "a", "r", "b"}
Cells(w, S) == {k \in 1..Len(w) : w[k] \in S}
(* the runs of a set of cells, in order *)
RECURSIVE RunsFrom(_, _, _)
RunsFrom(X, k, n) ==
  IF k > n THEN << >>
  ELSE IF k \notin X THEN RunsFrom(X, k + 1, n)
  ELSE LET e == CHOOSE j \in k..n : (\A i \in k..j : i \in X) /\ (j + 1) \notin X
       IN <<<<k, e>>>> \o RunsFrom(X, e + 1, n)
Runs(X, n) == RunsFrom(X, 1, n)

(* one pass over two sorted lists of separate ranges *)
RECURSIVE Pass(_, _, _)
Pass(in, out, acc) ==
  IF in = << >> THEN acc
  ELSE IF out = << >> THEN acc \o in
  ELSE LET i == Head(in) o == Head(out) IN
       IF o[2] < i[1] THEN Pass(in, Tail(out), acc)
       ELSE IF i[2] < o[1] THEN Pass(Tail(in), out, Append(acc, i))
       ELSE IF o[1] <= i[1] /\ i[2] <= o[2] THEN Pass(Tail(in), out, acc)
       ELSE IF i[1] < o[1] /\ o[2] < i[2] THEN Pass(<<<<o[2] + 1, i[2]>>>> \o Tail(in), Tail(out), Append(acc, <<i[1], o[1] - 1>>))
       ELSE IF o[1] <= i[1] THEN Pass(<<<<o[2] + 1, i[2]>>>> \o Tail(in), Tail(out), acc)
       ELSE Pass(Tail(in), out, Append(acc, <<i[1], o[1] - 1>>))

(* sorting and joining *)
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] > y[2])
RECURSIVE Insert(_, _)
Insert(q, x) == IF q = << >> THEN <<x>> ELSE IF Less(x, Head(q)) THEN <<x>> \o q ELSE <<Head(q)>> \o Insert(Tail(q), x)
RECURSIVE Sort(_)
Sort(q) == IF q = << >> THEN q ELSE Insert(Sort(Tail(q)), Head(q))
RECURSIVE Joined(_, _)
Joined(q, acc) ==
  IF q = << >> THEN acc
  ELSE LET x == Head(q) n == Len(acc) IN
       IF n = 0 \/ acc[n][2] + 1 < x[1] THEN Joined(Tail(q), Append(acc, x))
       ELSE Joined(Tail(q), [acc EXCEPT ![n] = <<@[1], IF @[2] > x[2] THEN @[2] ELSE x[2]>>])
Normal(q) == Joined(Sort(q), << >>)
Un(q) == UNION {q[k][1]..q[k][2] : k \in 1..Len(q)}

VARIABLES word, list
vars == <<word, list>>
Rng == {<<a, b>> \in (1..L) \X (1..L) : a <= b}
Init == word = << >> /\ list = << >>
NextWord == /\ list = << >> /\ Len(word) < L
            /\ \E c \in Letters : /\ Len(word) > 0 => word[Len(word)] # c
                                  /\ word' = Append(word, c)
            /\ list' = list
NextList == /\ word = << >> /\ Len(list) < K
            /\ \E x \in Rng : list' = Append(list, x)
            /\ word' = word
Next == NextWord \/ NextList
Spec == Init /\ [][Next]_vars

In(w)  == Runs(Cells(w, {"a", "b"}), Len(w))
Out(w) == Runs(Cells(w, {"r", "b"}), Len(w))
PassExact   == Pass(In(word), Out(word), << >>) = Runs(Cells(word, {"a"}), Len(word))
NormalExact == Normal(list) = Runs(Un(list), L)
(* the print happens once, when the state is first found; the last letter of a word says something *)
EmitState == Emit => IF word # << >> /\ In(word) # << >> /\ Out(word) # << >> /\ word[Len(word)] # "n" /\ word[1] # "n"
                     THEN PrintT(<<"EDGE", ToJson([in |-> In(word), out |-> Out(word), n |-> Len(word)])>>)
                     ELSE IF Len(list) = K
                     THEN PrintT(<<"EDGE", ToJson([in |-> list, out |-> << >>, n |-> L])>>)
                     ELSE TRUE
=============================================================================
