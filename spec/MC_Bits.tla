------------------------------- MODULE MC_Bits -------------------------------
(* The operators on bit strings are what they are meant to be: Decomp is the   *)
(* minimal exact prefix cover, Before the listing order, AllCovered coverage,  *)
(* AddOne and SubOne arithmetic - for every argument of a small width, against *)
(* definitions over the numbers.                                              *)
EXTENDS IdAlgebra
CONSTANT W
VARIABLE done
RECURSIVE BitsOf(_)
BitsOf(k) == IF k = 0 THEN {""} ELSE {p \o b : p \in BitsOf(k - 1), b \in {"0", "1"}}
Ids  == BitsOf(W)
Pre  == UNION {BitsOf(k) : k \in 0..W}
RECURSIVE Val(_)
Val(x) == IF x = "" THEN 0 ELSE 2 * Val(SubSeq(x, 1, Len(x) - 1)) + (IF Bit(x, Len(x)) = "1" THEN 1 ELSE 0)
Below(p) == {x \in Ids : SubSeq(x, 1, Len(p)) = p}

OrderOK == \A p, q \in Pre : Before(p, q) <=> \/ Val(Low(W, p)) < Val(Low(W, q))
                                              \/ Low(W, p) = Low(W, q) /\ Len(p) < Len(q)
DecompOK == \A a, b \in Ids : Val(a) <= Val(b) =>
              LET q == Decomp(W, a, b)
                  X == {x \in Ids : Val(a) <= Val(x) /\ Val(x) <= Val(b)}
                  In == {p \in Pre : Below(p) \subseteq X}
                  Top == {p \in In : \A r \in In : ~StrictlyCovers(r, p)}
              IN /\ InOrder(q) /\ {q[k] : k \in 1..Len(q)} = Top
                 /\ UNION {Below(q[k]) : k \in 1..Len(q)} = X
                 \* no smaller cover: siblings never both occur
                 /\ \A p \in Top : ~(p \o "0" \in Top /\ p \o "1" \in Top)
CoverOK == W > 3 \/  \A S \in {T \in SUBSET Pre : Cardinality(T) <= 3} : \A p \in Pre :
             AllCovered(W, S, p) <=> Below(p) \subseteq UNION {Below(q) : q \in S}
ArithOK == \A x \in Ids : /\ Val(AddOne(x)) = (Val(x) + 1) % 2 ^ W
                          /\ Val(SubOne(x)) = (Val(x) + 2 ^ W - 1) % 2 ^ W
AgreeOK == \A x, y \in Ids : AgreeBits(W, x, y) = CHOOSE k \in 0..W : SubSeq(x, 1, k) = SubSeq(y, 1, k) /\ (k < W => Bit(x, k + 1) # Bit(y, k + 1))
ASSUME OrderOK /\ DecompOK /\ CoverOK /\ ArithOK /\ AgreeOK
Init == done = TRUE
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================
