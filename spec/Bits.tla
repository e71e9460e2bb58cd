-------------------------------- MODULE Bits --------------------------------
(* Prefixes are strings of "0" and "1": the leading bits they fix. A full id  *)
(* of width W is a string of length W.                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Bit(p, i)     == SubSeq(p, i, i)
Covers(p, q)  == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p     \* p covers or equals q
StrictlyCovers(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
Least(a, b) == IF a < b THEN a ELSE b

RECURSIVE FirstDiff(_, _, _, _)   \* least i in lo..hi with different bits, by bisection
FirstDiff(p, q, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN IF SubSeq(p, lo, mid) # SubSeq(q, lo, mid) THEN FirstDiff(p, q, lo, mid)
          ELSE FirstDiff(p, q, mid + 1, hi)

(* listing order: by id, the shorter prefix first *)
Before(p, q) ==
  /\ p # q
  /\ IF Covers(p, q) THEN TRUE
     ELSE IF Covers(q, p) THEN FALSE
     ELSE LET i == FirstDiff(p, q, 1, Least(Len(p), Len(q))) IN Bit(p, i) = "0"

RECURSIVE Rep(_, _)
Rep(b, k) == IF k = 0 THEN "" ELSE IF k = 1 THEN b
             ELSE LET h == Rep(b, k \div 2) IN IF k % 2 = 0 THEN h \o h ELSE h \o h \o b
Zeros64 == Rep("0", 64)
Ones64  == Rep("1", 64)
Zeros(k) == SubSeq(Zeros64, 1, k)
Ones(k)  == SubSeq(Ones64, 1, k)
Low(W, p)  == p \o Zeros(W - Len(p))     \* lowest id under a prefix
High(W, p) == p \o Ones(W - Len(p))      \* highest id under a prefix
LeqId(a, b) == a = b \/ Before(a, b)

(* The minimal prefixes that together cover exactly the ids a..b (a <= b),    *)
(* in ascending order. la/lb: the bound a/b still lies strictly inside p.     *)
RECURSIVE DecompAt(_, _, _, _, _, _, _)
DecompAt(W, a, b, p, k, la, lb) ==
  LET tl == la /\ SubSeq(a, k + 1, W) # Zeros(W - k)
      tr == lb /\ SubSeq(b, k + 1, W) # Ones(W - k)
  IN IF ~tl /\ ~tr THEN <<p>>
     ELSE LET a1 == Bit(a, k + 1) = "1"
              b1 == Bit(b, k + 1) = "1"
          IN (IF tl /\ a1 THEN << >> ELSE DecompAt(W, a, b, p \o "0", k + 1, tl, tr /\ ~b1))
             \o (IF tr /\ ~b1 THEN << >> ELSE DecompAt(W, a, b, p \o "1", k + 1, tl /\ a1, tr))
Decomp(W, a, b) == DecompAt(W, a, b, "", 0, TRUE, TRUE)

(* every id under p is covered by some member of S *)
RECURSIVE AllCovered(_, _, _)
AllCovered(W, S, p) ==
  LET R == {q \in S : Covers(q, p) \/ Covers(p, q)} IN
  \/ \E q \in R : Covers(q, p)
  \/ Len(p) < W /\ R # {} /\ AllCovered(W, R, p \o "0") /\ AllCovered(W, R, p \o "1")

InOrder(q) == \A k \in 1..(Len(q) - 1) : Before(q[k], q[k + 1])
SortBits(S) == SetToSortSeq(S, Before)
=============================================================================
