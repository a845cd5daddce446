------------------------------ MODULE Hist2DMC ------------------------------
EXTENDS Hist2D, TLC
CONSTANTS Depth, Xs, Caps
VARIABLES obj, log, n
XA == {MakeAxis(<<0, 4, 12>>, 0), MakeAxis(<<12, 8, 4, 0>>, 16), MakeAxis(<<8, 0>>, 16)}
Y == MakeAxis(<<4, 0>>, 0)
MInit == \E x \in XA, c \in Caps, d \in Caps :
  obj = <<Fresh(x, Y, FALSE, c), Fresh(x, Y, FALSE, d)>> /\ log = <<<<>>, <<>>>> /\ n = 0
Smp == {<<x, y, v>> : x \in Xs, y \in {1}, v \in {0, 1, 3, Undefined}}
MPush == \E i \in {1, 2}, s \in Smp :
  obj' = [obj EXCEPT ![i] = Push(@, <<s>>)] /\ log' = [log EXCEPT ![i] = Append(@, s)]
MMerge == \E i, j \in {1, 2} :
  obj' = [obj EXCEPT ![i] = Combine(@, obj[j])] /\ log' = [log EXCEPT ![i] = @ \o log[j]]
MClear == \E i \in {1, 2} :
  obj' = [obj EXCEPT ![i] = Clear(@)] /\ log' = [log EXCEPT ![i] = <<>>]
MNext == n < Depth /\ n' = n + 1 /\ (MPush \/ MMerge \/ MClear)
MSpec == MInit /\ [][MNext]_<<obj, log, n>>
Defined(s) == s[3] # Undefined /\ s[1] # NaN /\ s[2] # NaN
Count(o) == FoldSeq(LAMBDA c, a : a + Len(c.smp), 0, o.cells)
OnceEach == \A i \in {1, 2} :
  Count(obj[i]) = Len(SelectSeq(log[i], Defined))
\* the samples of a cell are those whose nearest node is that of the cell
Own == \A i \in {1, 2} : \A a \in DOMAIN obj[i].x.v, b \in DOMAIN obj[i].y.v :
  LET o == obj[i]
      mine(s) == /\ Defined(s)
                 /\ a - 1 \in FindIndex(o.x, s[1], TRUE)
                 /\ b - 1 \in FindIndex(o.y, s[2], TRUE)
      c == o.cells[CellNo(o, a - 1, b - 1)]
  IN [k \in DOMAIN c.smp |-> c.smp[k][1]]
       = LET q == SelectSeq(log[i], mine) IN [k \in DOMAIN q |-> q[k][3]]
\* bins carry the whole weight, within the maximum number of bins
Bins == \A i \in {1, 2} : \A k \in DOMAIN obj[i].cells :
  LET c == obj[i].cells[k] IN
  /\ c.cap = obj[i].cap /\ c.poss # {}
  /\ \A p \in c.poss : /\ Len(p) <= c.cap
                       /\ FoldSeq(LAMBDA b, a : a + b[2], 0, p) = Len(c.smp)
  /\ c.safe => c.poss = {H!Grouped(c.smp)}
=============================================================================
