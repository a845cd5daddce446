------------------------------ MODULE Geohash ------------------------------
(* Geohash codes.  A position on an axis is the infinite sequence of the    *)
(* binary digits of its fraction of the axis; a code is the interleaving of *)
(* the first digits of the longitude and of the latitude, and denotes the   *)
(* cell of the positions that start with them.                              *)
EXTENDS Integers, Sequences, FiniteSets
Wide == 34                                   \* digits recorded of a position
Pow2 == [i \in 0..30 |-> 2^i]
\* the digits of <<h, l>>, two numbers of 17 digits
Bits(q) == [i \in 1..Wide |->
  IF i <= 17 THEN (q[1] \div Pow2[17 - i]) % 2 ELSE (q[2] \div Pow2[34 - i]) % 2]
RECURSIVE Value(_)
Value(b) == IF b = <<>> THEN 0 ELSE 2 * Value(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
Ones(n) == [i \in 1..n |-> 1]
Zeros(n) == [i \in 1..n |-> 0]
\* the next and the previous sequence of digits, going round
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
Step(b, from) ==
  LET S == {i \in DOMAIN b : b[i] = from} IN
  IF S = {} THEN [i \in DOMAIN b |-> from]
  ELSE LET k == Last(S) IN [i \in DOMAIN b |-> IF i < k THEN b[i] ELSE 1 - b[i]]
Next1(b) == IF b = Ones(Len(b)) THEN Zeros(Len(b)) ELSE Step(b, 0)
Prev1(b) == IF b = Zeros(Len(b)) THEN Ones(Len(b)) ELSE Step(b, 1)
\* codes -------------------------------------------------------------------
Weave(x, y, p) == [i \in 1..p |-> IF i % 2 = 1 THEN x[(i + 1) \div 2] ELSE y[i \div 2]]
LonOf(c) == [i \in 1..((Len(c) + 1) \div 2) |-> c[2 * i - 1]]
LatOf(c) == [i \in 1..(Len(c) \div 2) |-> c[2 * i]]
Cut(c, p) == SubSeq(c, 1, p)
Starts(b, a) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Inside(c, x, y) == Starts(x, LonOf(c)) /\ Starts(y, LatOf(c))
\* text --------------------------------------------------------------------
Alphabet == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "b", "c", "d", "e", "f", "g",
              "h", "j", "k", "m", "n", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Rank == [a \in {Alphabet[i] : i \in 1..32} |-> (CHOOSE i \in 1..32 : Alphabet[i] = a) - 1]
IsText(t) == Len(t) \in 1..12 /\ \A i \in DOMAIN t : t[i] \in DOMAIN Rank
Digits(t) == [i \in 1..(5 * Len(t)) |->
  (Rank[t[(i + 4) \div 5]] \div Pow2[(5 * Len(t) - i) % 5]) % 2]
Text(c) == [i \in 1..(Len(c) \div 5) |-> Alphabet[1 + Value(SubSeq(c, 5 * i - 4, 5 * i))]]
\* the box of a cell: the fraction 1 is the empty sequence ------------------
Low(b) == b \o Zeros(Wide - Len(b))
High(b) == IF b = Ones(Len(b)) THEN <<>> ELSE Low(Next1(b))
Centre(b) == b \o <<1>> \o Zeros(Wide - 1 - Len(b))
\* neighbours: clockwise from the north ------------------------------------
Opposite(x) == IF x = <<>> THEN x ELSE <<1 - x[1]>> \o Tail(x)
Move(c, dx, dy) ==
  LET x == LonOf(c) y == LatOf(c) n == Len(y)
      pole == (dy = 1 /\ y = Ones(n)) \/ (dy = -1 /\ y = Zeros(n))
      x1 == IF dx = 1 THEN Next1(x) ELSE IF dx = -1 THEN Prev1(x) ELSE x
      y1 == IF pole \/ dy = 0 THEN y ELSE IF dy = 1 THEN Next1(y) ELSE Prev1(y)
  IN Weave(IF pole THEN Opposite(x1) ELSE x1, y1, Len(c))
Dirs == <<<<0, 1>>, <<1, 1>>, <<1, 0>>, <<1, -1>>, <<0, -1>>, <<-1, -1>>, <<-1, 0>>, <<-1, 1>>>>
Around(c) == [k \in 1..8 |-> Move(c, Dirs[k][1], Dirs[k][2])]
Polar(c) == LatOf(c) \in {Ones(Len(c) \div 2), Zeros(Len(c) \div 2)}
\* grids of cells: columns and rows as numbers ------------------------------
\* an interval of fractions <<h, l>> with h up to 2^17
Col(q, n) == IF n <= 17 THEN q[1] \div Pow2[17 - n]
             ELSE q[1] * Pow2[n - 17] + (q[2] \div Pow2[34 - n])
Edge(q, n) == IF n <= 17 THEN q[2] = 0 /\ q[1] % Pow2[17 - n] = 0
              ELSE q[2] % Pow2[34 - n] = 0
LastCol(a, b, n) == IF Edge(b, n) /\ a # b THEN Col(b, n) - 1 ELSE Col(b, n)
Clip(k, n) == IF k >= Pow2[n] THEN Pow2[n] - 1 ELSE k
Cols(a, b, n) == Clip(Col(a, n), n)..Clip(LastCol(a, b, n), n)
Cell(c) == <<Value(LonOf(c)), Value(LatOf(c))>>
\* a box is <<lon min, lat min, lon max, lat max>>
CoverCells(box, p) == Cols(box[1], box[3], (p + 1) \div 2) \X Cols(box[2], box[4], p \div 2)
=============================================================================
