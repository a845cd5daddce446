------------------------------ MODULE BinningMC -----------------------------
(* Two binnings over the same axes, filled, merged and cleared in any order *)
EXTENDS Binning, TLC
CONSTANTS Depth, Xs, Ys
VARIABLES bin, log, n
AxesX == {MakeAxis(<<0, 4, 12>>, 0), MakeAxis(<<8, 0>>, 16), MakeAxis(<<0, 4, 8, 12>>, 16)}
AxesY == {MakeAxis(<<4, 0>>, 0), MakeAxis(<<-4, 4>>, 0)}
Fresh(x, y) == [x |-> x, y |-> y, wgs |-> 0, single |-> FALSE, kind |-> 2,
                range |-> <<Lo(x.v), Hi(x.v)>>, cells |-> Empty(x, y)]
MInit == \E x \in AxesX, y \in AxesY :
  bin = [i \in {1, 2} |-> Fresh(x, y)] /\ log = [i \in {1, 2} |-> <<>>] /\ n = 0
Smp == {<<x, y, v>> : x \in Xs, y \in Ys, v \in {1, Undefined}}
MPush == \E i \in {1, 2}, s \in Smp, how \in {"simple", "linear"} :
  /\ bin' = [bin EXCEPT ![i] = Push(@, <<s>>, how)]
  /\ log' = [log EXCEPT ![i] = Append(@, <<s, how>>)]
MMerge == \E i, j \in {1, 2} :
  /\ bin' = [bin EXCEPT ![i] = Combine(@, bin[j])]
  /\ log' = [log EXCEPT ![i] = @ \o log[j]]
MClear == \E i \in {1, 2} :
  /\ bin' = [bin EXCEPT ![i] = Clear(@)] /\ log' = [log EXCEPT ![i] = <<>>]
MNext == n < Depth /\ n' = n + 1 /\ (MPush \/ MMerge \/ MClear)
MSpec == MInit /\ [][MNext]_<<bin, log, n>>
\* whatever the history, an object is what its samples say, pushed at once
Replay(o, lg) == FoldLeft(LAMBDA a, e : Push(a, <<e[1]>>, e[2]), Clear(o), lg)
History == \A i \in {1, 2} : Replay(bin[i], log[i]).cells = bin[i].cells
Covered(o, s) == Cells(o.x, s[1]) # {} /\ Cells(o.y, s[2]) # {}
Total(c) == FoldSeq(LAMBDA q, a : a + Weight(q), 0, c)
\* every accepted sample brings a weight of one, and never more than 4 bins
Conserved == \A i \in {1, 2} :
  Total(bin[i].cells) = FoldSeq(LAMBDA e, a : a +
      IF e[1][3] = Undefined THEN 0
      ELSE IF e[2] = "linear" /\ ~Covered(bin[i], e[1]) THEN 0 ELSE One, 0, log[i])
\* simple binning of a node, and linear binning of a node, agree; a period
\* more changes nothing
Nodes == \A a \in DOMAIN bin[1].x.v, b \in DOMAIN bin[1].y.v :
  LET o == Clear(bin[1])
      s == <<o.x.v[a], o.y.v[b], 7>>
      t == <<o.x.v[a] + o.x.C, o.y.v[b], 7>>
  IN /\ Push(o, <<s>>, "simple") = Push(o, <<s>>, "linear")
     /\ Push(o, <<s>>, "linear") = Push(o, <<t>>, "linear")
     /\ Push(o, <<s>>, "simple").cells[CellNo(o, a - 1, b - 1)] = <<<<7, One>>>>
=============================================================================
