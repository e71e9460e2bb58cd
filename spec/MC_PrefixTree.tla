---------------------------- MODULE MC_PrefixTree ----------------------------
(* Exhaustive exploration of the tree specification for a small id width.      *)
(* Checks that the actions of PrefixTree give what users rely on, stated       *)
(* without Effect or Decomp (over the sets of ids prefixes stand for), and     *)
(* prints the transitions that are replayed into the real trees.               *)
EXTENDS PrefixTree, Json, IOUtils

CONSTANTS W, N, NVals, MaxO    \* width, space bits, label values, tree objects

Emit == "EMIT" \in DOMAIN IOEnv
c == [w |-> W, n |-> N]
Data == {[l |-> << <<"a", ToString(k)>> >>, d |-> ""] : k \in 1..NVals}

VARIABLES m, last
vars == <<m, last>>
View == m

RECURSIVE BitsOf(_)
BitsOf(k) == IF k = 0 THEN {""} ELSE {p \o b : p \in BitsOf(k - 1), b \in {"0", "1"}}
AllPrefixes == UNION {BitsOf(k) : k \in 0..W}
FullIds  == BitsOf(W)
IdsOf(p) == {x \in FullIds : Covers(p, x)}          \* what a prefix stands for
Space    == {x \in FullIds : InSpace(c, x)}
Num(x)   == Cardinality({y \in FullIds : Before(y, x)})

Sels == {[t |-> "req", rs |-> <<[k |-> "a", op |-> "eq", vs |-> <<ToString(x)>>]>>] : x \in 1..NVals}
Calls(h) ==
  [op : {"Claim", "Update"}, o : {h}, p : AllPrefixes, v : Data]
  \cup [op : {"Release", "Get", "Children", "Parents"}, o : {h}, p : AllPrefixes]
  \cup [op : {"ClaimFree"}, o : {h}, v : Data]
  \cup [op : {"ClaimRange"}, o : {h}, kind : {"ok"}, a : FullIds, b : FullIds, v : Data]
  \cup [op : {"ClaimRange"}, o : {h}, kind : {"malformed"}, v : Data]
  \cup [op : {"ReleaseByLabel", "GetByLabel"}, o : {h}, sel : Sels]
  \cup [op : {"GetAll", "Iterate", "Size"}, o : {h}]
  \cup (IF Cardinality(DOMAIN m) < MaxO THEN [op : {"Clone"}, o : {h}, o2 : {Cardinality(DOMAIN m) + 1}] ELSE {})

EsOf(s, X) == LET q == SortBits(X) IN [k \in 1..Len(q) |-> [p |-> q[k], v |-> s[q[k]]]]
Answers(e) ==
  LET s == m[e.o] IN
  CASE e.op \in {"Claim", "Update", "Release", "ClaimRange", "ReleaseByLabel", "Clone"} -> {[ok |-> TRUE], [ok |-> FALSE]}
    [] e.op = "Get" -> {[ok |-> FALSE]} \cup [ok : {TRUE}, p : AllPrefixes, v : Data]
    [] e.op = "ClaimFree" -> {[ok |-> FALSE]} \cup [ok : {TRUE}, p : FullIds, v : {e.v}]
    [] e.op \in {"Children", "Parents", "GetByLabel", "GetAll", "Iterate"} -> {[es |-> EsOf(s, X)] : X \in SUBSET DOMAIN s}
    [] e.op = "Size" -> [n : 0..Cardinality(DOMAIN s)]

Init == m = (1 :> << >>) /\ last = [op |-> "none"]
Next == \E h \in DOMAIN m : \E e \in Calls(h) :
          \E r \in {a \in Answers(e) : RetOK(c, m, e, a)} :
            /\ m' = Effect(c, m, e, r)
            /\ last' = [op |-> e.op, e |-> e, r |-> r]
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
S(h)  == DOMAIN m[h]
S2(h) == DOMAIN m'[h]
TypeOK == \A h \in DOMAIN m : S(h) \subseteq AllPrefixes /\ \A p \in S(h) : InSpace(c, p) /\ m[h][p] \in Data
Answered == \A h \in DOMAIN m : \A e \in Calls(h) :
              LET A == {a \in Answers(e) : RetOK(c, m, e, a)}
              IN A # {} /\ (e.op = "ClaimFree" \/ Cardinality(A) = 1)

Touched == {"Claim", "Update", "Release", "ClaimFree", "ClaimRange", "ReleaseByLabel"}
P01_Frame == [][ last'.op \in {"Claim", "Update", "Release"} =>
                   LET h == last'.e.o IN
                   /\ \A p \in AllPrefixes \ {last'.e.p} : /\ p \in S(h) <=> p \in S2(h)
                                                        /\ p \in S(h) => m[h][p] = m'[h][p]
                   /\ last'.op = "Release" => last'.e.p \notin S2(h)
                   /\ (last'.op # "Release" /\ last'.r.ok) => last'.e.p \in S2(h) /\ m'[h][last'.e.p] = last'.e.v ]_vars
P04_Uncovered == [][ last'.op = "ClaimFree" =>
                       LET h == last'.e.o
                           cov == UNION {IdsOf(p) : p \in S(h)}
                       IN /\ last'.r.ok <=> Space \ cov # {}
                          /\ last'.r.ok => last'.r.p \in Space \ cov
                          /\ ~last'.r.ok => m' = m ]_vars
Aligned(P) == \A p, q \in P : p # q => IdsOf(p) \cap IdsOf(q) = {}
P05_Exact == [][ (last'.op = "ClaimRange" /\ last'.e.kind = "ok") =>
                   LET h == last'.e.o
                       X == {x \in FullIds : Num(last'.e.a) <= Num(x) /\ Num(x) <= Num(last'.e.b)}
                       P == {p \in S2(h) : p \notin S(h) \/ m'[h][p] # m[h][p]}
                       Q == {p \in AllPrefixes : IdsOf(p) \subseteq X}
                       Top == {p \in Q : \A q \in Q : StrictlyCovers(q, p) => FALSE}   \* the minimal cover
                   IN /\ last'.r.ok <=> X # {} /\ X \subseteq Space
                      /\ last'.r.ok => P \subseteq Top /\ Top \subseteq S2(h) /\ \A p \in Top : m'[h][p] = last'.e.v
                      /\ \A p \in S(h) : p \in S2(h)
                      /\ ~last'.r.ok => m' = m ]_vars
P06_Exact == [][ last'.op = "ReleaseByLabel" =>
                   LET h == last'.e.o IN S2(h) = {p \in S(h) : ~Matches(last'.e.sel, m[h][p].l)} /\ \A p \in S2(h) : m'[h][p] = m[h][p] ]_vars
P07_Independent == [][ \A h \in DOMAIN m : (last'.op = "none" \/ h # last'.e.o \/ last'.op \notin Touched) => m'[h] = m[h] ]_vars
P07_Equal == [][ last'.op = "Clone" => m'[last'.e.o2] = m[last'.e.o] ]_vars
ReadsPure == [][ last'.op \notin Touched \cup {"Clone"} => m' = m ]_vars
T11_Refused == [][ ("ok" \in DOMAIN last'.r /\ ~last'.r.ok) => m' = m ]_vars

Flat(t) == {<<p, t[p].l[1][2]>> : p \in DOMAIN t}
EmitStep == (Emit /\ MaxO = 1) =>
              PrintT(<<"EDGE", ToJson([from |-> Flat(m[1]), to |-> Flat(m'[1]), e |-> last'.e])>>)
=============================================================================
