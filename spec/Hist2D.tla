------------------------------- MODULE Hist2D -------------------------------
(* Two-dimensional histograms: one streaming histogram (Hist) per pair of   *)
(* nodes, every sample going to that of the nearest nodes.                  *)
EXTENDS AxisFns, SequencesExt, FiniteSetsExt
H == INSTANCE Hist
Undefined == 2000000000
CellNo(o, i, j) == i * Len(o.y.v) + j + 1
Fresh(x, y, single, cap) ==
  [x |-> x, y |-> y, single |-> single, cap |-> cap,
   cells |-> [k \in 1..Len(x.v) * Len(y.v) |-> H!EmptyCell(cap)]]
Pick(S) == CHOOSE k \in S : TRUE
Give(c, v) ==
  LET smp == Append(c.smp, <<v, 1>>) IN
  [c EXCEPT !.smp = smp, !.safe = @ /\ H!Lossless(smp, c.cap),
            !.poss = IF H!Known(smp) THEN H!Push(@, c.cap, <<v, 1>>) ELSE {}]
One(o, s) ==                       \* s = <<x, y, value>>
  LET i == Pick(FindIndex(o.x, s[1], TRUE)) j == Pick(FindIndex(o.y, s[2], TRUE))
  IN IF s[3] = Undefined \/ i = -1 \/ j = -1 THEN o
     ELSE [o EXCEPT !.cells[CellNo(o, i, j)] = Give(@, s[3])]
Push(o, smp) == FoldLeft(One, o, smp)
Clear(o) == Fresh(o.x, o.y, o.single, o.cap)
Compatible(a, b) == SameAxis(a.x, b.x) /\ SameAxis(a.y, b.y) /\ a.single = b.single
Combine(a, b) == [a EXCEPT !.cells =
  [k \in DOMAIN @ |-> H!MergeCells(@[k], b.cells[k])]]
=============================================================================
