------------------------------- MODULE HistMC -------------------------------
EXTENDS Hist
CONSTANTS Values, Weights, Caps, MaxLen
VARIABLE cell
Ids == {1, 2}
MInit == \E a, b \in Caps : cell = <<EmptyCell(a), EmptyCell(b)>>
PushCell(c, s) ==
  LET smp == Append(c.smp, s) IN
  [c EXCEPT !.smp = smp, !.safe = @ /\ Lossless(smp, c.cap),
            !.poss = Push(@, c.cap, s)]
MPush == \E i \in Ids, v \in Values, w \in Weights :
  Len(cell[i].smp) < MaxLen /\ cell' = [cell EXCEPT ![i] = PushCell(@, <<v, w>>)]
MMerge == \E i, j \in Ids :
  /\ Len(cell[i].smp) + Len(cell[j].smp) <= MaxLen
  /\ cell' = [cell EXCEPT ![i] = MergeCells(@, cell[j])]
MResize == \E i \in Ids, c \in Caps : cell' = [cell EXCEPT ![i] = ResizeCell(@, c)]
MNext == MPush \/ MMerge \/ MResize
MSpec == MInit /\ [][MNext]_cell
Conserved == \A i \in Ids : LET c == cell[i] IN \A p \in c.poss :
  /\ Len(p) <= c.cap
  /\ \A k \in 1..Len(p) - 1 : Before(p[k], p[k + 1])
  /\ (c.safe => p = Grouped(c.smp))
  \* no resize to zero has dropped the samples
  /\ FoldSeq(LAMBDA b, a : a + b[2], 0, p) <= Weight(c.smp)
  /\ (p # <<>> /\ (\A k \in DOMAIN p : p[k][2] > 0)) =>
       \A k \in DOMAIN p :
         /\ Min({s[1] : s \in {c.smp[j] : j \in DOMAIN c.smp}}) * p[k][2] <= p[k][1]
         /\ p[k][1] <= Max({s[1] : s \in {c.smp[j] : j \in DOMAIN c.smp}}) * p[k][2]
NonZero == \A i \in Ids : LET c == cell[i] IN
  ~c.lost => \A p \in c.poss :
     /\ FoldSeq(LAMBDA b, a : a + b[2], 0, p) = Weight(c.smp)
     /\ FoldSeq(LAMBDA b, a : a + (IF b[2] = 0 THEN 0 ELSE b[1]), 0, p) = S1(c.smp)
     /\ (c.smp # <<>> => p # <<>>)
=============================================================================
