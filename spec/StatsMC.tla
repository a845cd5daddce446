------------------------------ MODULE StatsMC -------------------------------
(* Two accumulators built sample by sample and merged with the pairwise     *)
(* update formulas (Pebay) always hold the moments of their samples.        *)
EXTENDS Stats, TLC
CONSTANTS Values, Weights, MaxLen
VARIABLES cell, acc           \* samples, and scaled accumulators
Ids == {1, 2}
Empty == [n |-> 0, W |-> 0, S |-> 0, A |-> 0]
\* exact integer form of the update of the second moment
Add(a, b) ==
  IF b.n = 0 THEN a ELSE IF a.n = 0 THEN b ELSE
  LET W == a.W + b.W
      d == b.S * a.W - a.S * b.W
      num == W * (b.W * a.A * b.W + a.W * b.A * a.W) 
  IN [n |-> a.n + b.n, W |-> W, S |-> a.S + b.S,
      A |-> IF a.W = 0 THEN b.A ELSE IF b.W = 0 THEN a.A
            ELSE (W * (b.W * a.A + a.W * b.A) + d * d) \div (a.W * b.W)]
One(v, w) == [n |-> 1, W |-> w, S |-> v * w, A |-> 0]
MInit == cell = [i \in Ids |-> <<>>] /\ acc = [i \in Ids |-> Empty]
MPush == \E i \in Ids, v \in Values, w \in Weights :
  /\ Len(cell[i]) < MaxLen
  /\ cell' = [cell EXCEPT ![i] = Append(@, <<v, w>>)]
  /\ acc' = [acc EXCEPT ![i] = Add(@, One(v, w))]
MMerge == \E i, j \in Ids :
  /\ Len(cell[i]) + Len(cell[j]) <= 2 * MaxLen
  /\ cell' = [cell EXCEPT ![i] = @ \o cell[j]]
  /\ acc' = [acc EXCEPT ![i] = Add(@, acc[j])]
MCopy == \E i, j \in Ids : /\ i # j
  /\ cell' = [cell EXCEPT ![i] = cell[j]] /\ acc' = [acc EXCEPT ![i] = acc[j]]
MNext == MPush \/ MMerge \/ MCopy
MSpec == MInit /\ [][MNext]_<<cell, acc>>
Exact == \A i \in Ids :
  /\ acc[i].n = Len(cell[i]) /\ acc[i].W = Weight(cell[i])
  /\ acc[i].S = S1(cell[i]) /\ acc[i].A = A2(cell[i])
Central(c, k) == FoldSeq(LAMBDA s, a : a + s[2] * (Weight(c) * s[1] - S1(c))^k, 0, c)
Moments == \A i \in Ids : LET c == cell[i] IN
  Len(c) <= 4 =>
  /\ Weight(c) * A2(c) = Central(c, 2)
  /\ Weight(c) * A3(c) = Central(c, 3)
  /\ Weight(c) * A4(c) = Central(c, 4)
  /\ A2(c) >= 0
  /\ (c # <<>> => MinOf(c) <= MaxOf(c))
\* order and grouping do not matter
Commutes == LET a == cell[1] b == cell[2] IN
  /\ A2(a \o b) = A2(b \o a)
  /\ (Weight(a \o b) > 0 => Mean(a \o b, 1) = Mean(b \o a, 1))
=============================================================================
