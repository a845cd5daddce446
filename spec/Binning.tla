------------------------------- MODULE Binning ------------------------------
(* Binned statistics.  An object is a pair of axes and, for every pair of   *)
(* nodes, the sequence of the samples <<value, weight>> given to that bin.  *)
(* Weights are counted in 64ths, so that the bilinear weights of a sample   *)
(* are integers (the cells of the axes have 4 or 8 units).                  *)
EXTENDS Stats, AxisFns
One == 64
Undefined == 2000000000
CellNo(o, i, j) == i * Len(o.y.v) + j + 1            \* 0-based indices
Empty(x, y) == [k \in 1..Len(x.v) * Len(y.v) |-> <<>>]
\* the bin of a sample: nearest node of each axis (never -1 but for NaN)
Pick(S) == CHOOSE k \in S : TRUE
NearestBin(o, x, y) ==
  LET i == Pick(FindIndex(o.x, x, TRUE)) j == Pick(FindIndex(o.y, y, TRUE))
  IN IF i = -1 \/ j = -1 THEN 0 ELSE CellNo(o, i, j)
Give(cells, k, s) == IF k = 0 THEN cells ELSE [cells EXCEPT ![k] = Append(@, s)]
Simple(o, cells, s) ==         \* s = <<x, y, value>>
  IF s[3] = Undefined THEN cells ELSE Give(cells, NearestBin(o, s[1], s[2]), <<s[3], One>>)
\* bilinear weights, in 64ths, of the four nodes around a position
Shares(o, x, y) ==
  LET cxs == Cells(o.x, x) cys == Cells(o.y, y) IN
  IF cxs = {} \/ cys = {} THEN {}
  ELSE LET cx == Pick(cxs) cy == Pick(cys)
           w(a, b) == (One * a * b) \div (cx.den * cy.den)
       IN {<<CellNo(o, cx.lo - 1, cy.lo - 1), w(cx.den - cx.num, cy.den - cy.num)>>,
           <<CellNo(o, cx.lo - 1, cy.hi - 1), w(cx.den - cx.num, cy.num)>>,
           <<CellNo(o, cx.hi - 1, cy.lo - 1), w(cx.num, cy.den - cy.num)>>,
           <<CellNo(o, cx.hi - 1, cy.hi - 1), w(cx.num, cy.num)>>}
Linear(o, cells, s) ==
  IF s[3] = Undefined THEN cells
  ELSE LET sh == {p \in Shares(o, s[1], s[2]) : p[2] > 0}
       IN [k \in DOMAIN cells |->
             IF \E p \in sh : p[1] = k
             THEN Append(cells[k], <<s[3], (CHOOSE p \in sh : p[1] = k)[2]>>)
             ELSE cells[k]]
\* one dimension: samples outside the range are ignored; s = <<x, w, value>>
OneD(o, cells, s) ==
  IF s[3] = Undefined \/ s[1] = NaN THEN cells
  ELSE IF s[1] < o.range[1] \/ s[1] > o.range[2] THEN cells
  ELSE Give(cells, Pick(FindIndex(o.x, s[1], TRUE)) + 1, <<s[3], s[2] * One>>)
Push(o, smp, how) ==
  [o EXCEPT !.cells =
     FoldLeft(LAMBDA c, s : IF how = "simple" THEN Simple(o, c, s)
                            ELSE IF how = "linear" THEN Linear(o, c, s)
                            ELSE OneD(o, c, s), @, smp)]
Clear(o) == [o EXCEPT !.cells = [k \in DOMAIN @ |-> <<>>]]
Compatible(a, b) ==
  /\ SameAxis(a.x, b.x) /\ SameAxis(a.y, b.y) /\ a.wgs = b.wgs
  /\ a.single = b.single /\ a.kind = b.kind
Combine(a, b) == [a EXCEPT !.cells = Merge(@, b.cells)]
\* the same samples with smaller weights, in the same proportions
Divides(k, c) == \A i \in DOMAIN c : c[i][2] % k = 0
Unit(c) ==
  LET k == IF Divides(64, c) THEN 64 ELSE IF Divides(16, c) THEN 16
           ELSE IF Divides(8, c) THEN 8 ELSE IF Divides(4, c) THEN 4 ELSE 1
  IN [i \in DOMAIN c |-> <<c[i][1], c[i][2] \div k>>]
OkBin(r, c, single) ==
  LET u == Unit(c) IN
  /\ r.n = Len(c) /\ r.sw = Weight(c) /\ r.sum = S1(c)
  /\ IF c = <<>> THEN r.min = NONE /\ r.max = NONE
     ELSE r.min = MinOf(c) /\ r.max = MaxOf(c)
  /\ OkMean(r.mean, u, single)
  /\ OkVar(r.var, u, 0, single)
  /\ (Divides(One, c) => OkVar(r.var1, u, 1, single))
  /\ (~single => OkHigh(r.high, u))
=============================================================================
