------------------------------- MODULE GridMC -------------------------------
(* Whatever the flips, transpositions and orderings, a grid keeps its        *)
(* meaning.                                                                  *)
EXTENDS Grid, TLC
CONSTANTS Sizes                     \* possible lengths of the axes
VARIABLES g, name                   \* name[k]: axis of the first grid
MShapes == {<<a, b>> : a, b \in Sizes} \cup {<<a, b, c>> : a, b, c \in Sizes}
Line(k, n) == [i \in 1..n |-> 10 * k + i]
MInit == \E n \in MShapes :
           /\ g = [axes |-> [k \in DOMAIN n |-> Line(k, n[k])],
                   data |-> [r \in 1..Prod(n) |-> r]]
           /\ name = [k \in DOMAIN n |-> k]
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
MFlip == \E D \in SUBSET DOMAIN g.axes : g' = Flip(g, D) /\ UNCHANGED name
MUp == g' = Increase(g) /\ UNCHANGED name
MTurn == \E p \in Perms(Len(g.axes)) :
           g' = Transpose(g, p) /\ name' = [k \in DOMAIN p |-> name[p[k]]]
MNext == MFlip \/ MUp \/ MTurn
MSpec == MInit /\ [][MNext]_<<g, name>>
\* the axes by name
Size(k) == Len(g.axes[CHOOSE j \in DOMAIN name : name[j] = k])
First == LET n == [k \in DOMAIN name |-> Size(k)] IN
         [axes |-> [k \in DOMAIN n |-> Line(k, n[k])], data |-> [r \in 1..Prod(n) |-> r]]
Back == [k \in DOMAIN name |-> CHOOSE j \in DOMAIN name : name[j] = k]
Shaped == WellFormed(g)
Same == Meaning(Transpose(g, Back)) = Meaning(First)
Pairing == \A r \in DOMAIN g.data :
             At(g, Coordinates(g.axes, Place(r, Lens(g.axes)))) = g.data[r]
Ranks == \A r \in DOMAIN g.data : Rank(Place(r, Lens(g.axes)), Lens(g.axes)) = r
Upward == \A k \in DOMAIN g.axes : Ascending(Increase(g).axes[k])
Involution == \A D \in SUBSET DOMAIN g.axes : Flip(Flip(g, D), D) = g
=============================================================================
