----------------------------- MODULE GeohashMC -----------------------------
(* Walking over the cells, zooming in and out: the code always denotes a    *)
(* cell of the grid of its precision, moves have an inverse, an ancestor    *)
(* contains its descendants and the children are a partition of the cell.   *)
EXTENDS Geohash, TLC
CONSTANTS MaxBits
VARIABLE c
MInit == c \in {<<0>>, <<1>>}
MWalk == \E k \in 1..8 : c' = Around(c)[k]
MIn == Len(c) < MaxBits /\ \E b \in {0, 1} : c' = Append(c, b)
MOut == Len(c) > 1 /\ c' = Cut(c, Len(c) - 1)
MNext == MWalk \/ MIn \/ MOut
MSpec == MInit /\ [][MNext]_c
X == Value(LonOf(c))
Y == Value(LatOf(c))
NX == 2^((Len(c) + 1) \div 2)
NY == 2^(Len(c) \div 2)
Typed == Len(c) \in 1..MaxBits /\ X \in 0..(NX - 1) /\ Y \in 0..(NY - 1)
Positions == \A n \in {c} : Weave(LonOf(n), LatOf(n), Len(n)) = n
\* the numbers of the neighbours
Wrap(k, n) == ((k % n) + n) % n
Adjacent == \A k \in 1..8 :
  LET n == Around(c)[k] dx == Dirs[k][1] dy == Dirs[k][2]
      over == Y + dy \notin 0..(NY - 1)
  IN /\ Len(n) = Len(c)
     /\ Value(LatOf(n)) = (IF over THEN Y ELSE Y + dy)
     /\ Value(LonOf(n)) = Wrap(X + dx + (IF over THEN NX \div 2 ELSE 0), NX)
Inverse == \A k \in 1..8 : ~(Polar(c) /\ Dirs[k][2] # 0) =>
  LET n == Around(c)[k] IN Polar(n) \/ Around(n)[((k + 3) % 8) + 1] = c
Mutual == \A k \in 1..8 : \E j \in 1..8 : Around(Around(c)[k])[j] = c
Children == Len(c) < MaxBits =>
  LET kids == {Append(c, 0), Append(c, 1)} IN
  \A k \in kids : Starts(LonOf(k), LonOf(c)) /\ Starts(LatOf(k), LatOf(c))
\* the position of the centre is in the cell, those of its corners are not above it
Geometry == /\ Inside(c, Centre(LonOf(c)), Centre(LatOf(c)))
            /\ Inside(c, Low(LonOf(c)), Low(LatOf(c)))
            /\ High(LonOf(c)) # <<>> => ~Starts(High(LonOf(c)), LonOf(c))
\* the box of a cell covers that cell only; shifted, it meets its neighbours
Frac(k, n) == <<k * Pow2[17 - n], 0>>
XN == (Len(c) + 1) \div 2
YN == Len(c) \div 2
OwnBox == <<Frac(X, XN), Frac(Y, YN), Frac(X + 1, XN), Frac(Y + 1, YN)>>
Covers == /\ CoverCells(OwnBox, Len(c)) = {<<X, Y>>}
          /\ \A p \in Len(c)..MaxBits :
               Cardinality(CoverCells(OwnBox, p)) = 2^(p - Len(c))
          /\ \A p \in 1..Len(c) : CoverCells(OwnBox, p) = {Cell(Cut(c, p))}
Texts == Len(c) % 5 = 0 => Digits(Text(c)) = c
=============================================================================
