-------------------------------- MODULE Hist --------------------------------
(* Streaming histograms (Ben-Haim and Tom-Tov).  A cell is what was given   *)
(* to it (smp, a sequence of <<value, weight>>), its maximum number of bins *)
(* (cap) and its bins, grouped by equal value.  A bin is <<S, W, _>>: it    *)
(* stands for the value S / W with the weight W, or, when W = 0, for S.     *)
(* poss is the set of bins the cell may have: where several pairs of        *)
(* neighbours are equally close and their distance is not exactly           *)
(* representable, any may be merged; {} when the model gave up.             *)
EXTENDS Stats, TLC
MaxWeight == 60
Den(b) == IF b[2] = 0 THEN 1 ELSE b[2]
Before(a, b) == a[1] * Den(b) < b[1] * Den(a)
Same(a, b) == a[1] * Den(b) = b[1] * Den(a)
\* third item: 1 while the value was computed without any rounding
Join(a, b) == IF a[2] = 0 THEN (IF b[2] = 0 THEN a ELSE b)
              ELSE IF b[2] = 0 THEN a
              ELSE <<a[1] + b[1], a[2] + b[2],
                     IF a[3] * b[3] = 1 /\ (a[1] + b[1]) % (a[2] + b[2]) = 0 THEN 1 ELSE 0>>
Bin(v, w) == IF w = 0 THEN <<v, 0, 1>> ELSE <<v * w, w, 1>>
\* insertion in a sorted sequence of distinct bins
InsertBin(bins, b) ==
  LET eq == {k \in DOMAIN bins : Same(bins[k], b)}
      n == Cardinality({k \in DOMAIN bins : Before(bins[k], b)})
  IN IF eq # {} THEN [k \in DOMAIN bins |-> IF k \in eq THEN Join(bins[k], b) ELSE bins[k]]
     ELSE SubSeq(bins, 1, n) \o <<b>> \o SubSeq(bins, n + 1, Len(bins))
\* distance of neighbours k and k + 1, as a fraction
Gap(bins, k) == <<bins[k + 1][1] * Den(bins[k]) - bins[k][1] * Den(bins[k + 1]),
                  Den(bins[k]) * Den(bins[k + 1])>>
NotAfter(f, g) == f[1] * g[2] <= g[1] * f[2]
Exact(b) == b[3] = 1
Collapse(bins, k) ==
  [i \in 1..Len(bins) - 1 |-> IF i < k THEN bins[i]
     ELSE IF i = k THEN Join(bins[k], bins[k + 1]) ELSE bins[i + 1]]
Closest(bins) == LET I == 1..Len(bins) - 1 IN
  {k \in I : \A j \in I : NotAfter(Gap(bins, k), Gap(bins, j))}
Merged(bins) ==
  LET ks == Closest(bins) IN
  IF \A k \in ks : Exact(bins[k]) /\ Exact(bins[k + 1])
  THEN {Collapse(bins, Min(ks))} ELSE {Collapse(bins, k) : k \in ks}
\* bins of equal value may come out of a merge
RECURSIVE Regroup(_)
Regroup(bins) == IF Len(bins) < 2 THEN bins
  ELSE LET r == Regroup(Tail(bins)) IN
       IF Same(bins[1], r[1]) THEN <<Join(bins[1], r[1])>> \o Tail(r)
       ELSE <<bins[1]>> \o r
RECURSIVE Trim(_, _)
Trim(bins, cap) ==
  IF Len(bins) <= cap THEN {bins} ELSE IF cap = 0 THEN {<<>>}
  ELSE UNION {Trim(Regroup(b), cap) : b \in Merged(bins)}
InsertAll(bins, bs) == FoldLeft(LAMBDA a, b : InsertBin(a, b), bins, bs)
Push(poss, cap, s) == UNION {Trim(InsertBin(b, Bin(s[1], s[2])), cap) : b \in poss}
Grouped(smp) == InsertAll(<<>>, [k \in DOMAIN smp |-> Bin(smp[k][1], smp[k][2])])
Distinct(smp) == Cardinality({smp[k][1] : k \in DOMAIN smp})
Lossless(smp, cap) == Distinct(smp) <= cap
\* ---- cells ----------------------------------------------------------------
EmptyCell(cap) == [smp |-> <<>>, cap |-> cap, poss |-> {<<>>}, safe |-> TRUE, lost |-> cap = 0]
Known(smp) == Weight(smp) <= MaxWeight
NewCell(smp, cap) ==
  [smp |-> smp, cap |-> cap, safe |-> Lossless(smp, cap), lost |-> cap = 0,
   poss |-> IF ~Known(smp) THEN {}
            ELSE FoldLeft(LAMBDA p, s : Push(p, cap, s), {<<>>}, smp)]
MergeCells(a, b) ==
  LET smp == a.smp \o b.smp IN
  [smp |-> smp, cap |-> a.cap, lost |-> a.lost \/ b.lost,
   safe |-> a.safe /\ b.safe /\ Lossless(smp, a.cap),
   poss |-> IF ~Known(smp) THEN {}
            ELSE UNION {Trim(InsertAll(x, y), a.cap) : x \in a.poss, y \in b.poss}]
ResizeCell(a, cap) ==
  [a EXCEPT !.cap = cap, !.lost = @ \/ cap = 0, !.safe = @ /\ Lossless(a.smp, cap),
            !.poss = UNION {Trim(x, cap) : x \in @}]
\* ---- what is reported -----------------------------------------------------
Match(obs, bins) ==     \* obs: sequence of <<value * 10000, weight>>
  LET V(k) == Scaled(bins[k][1], Den(bins[k]), 10000)
      mine(k) == SelectSeq(obs, LAMBDA o : Near(o[1], V(k), 1))
  IN /\ \A k \in DOMAIN bins :
          mine(k) # <<>> /\ FoldSeq(LAMBDA o, a : a + o[2], 0, mine(k)) = bins[k][2]
     /\ FoldSeq(LAMBDA o, a : a + o[2], 0, obs)
          = FoldSeq(LAMBDA b, a : a + b[2], 0, bins)
     /\ \A i \in DOMAIN obs : \E k \in DOMAIN bins : Near(obs[i][1], V(k), 1)
Matching(r, c) == {p \in c.poss : Match(r.bins, p)}
Sorted(obs) == \A i \in 1..Len(obs) - 1 : obs[i][1] <= obs[i + 1][1]
OkBins(r, c) ==
  /\ r.size = Len(r.bins) /\ r.size <= c.cap /\ r.size <= Len(c.smp)
  /\ Sorted(r.bins)
  /\ IF c.poss # {} THEN Matching(r, c) # {}
     ELSE IF c.safe THEN Match(r.bins, Grouped(c.smp))
     ELSE IF c.lost THEN TRUE ELSE r.size > 0 /\ FoldSeq(LAMBDA o, a : a + o[2], 0, r.bins) = Weight(c.smp)
\* mid-weight interpolation between the reported bins, min and max
Quantile(obs, W, lo, hi, k) ==
  LET X == 2 * W * k
      cum[i \in 0..Len(obs)] == IF i = 0 THEN 0 ELSE cum[i - 1] + obs[i][2]
      P(i) == IF i = 0 THEN 0 ELSE IF i > Len(obs) THEN 32 * W
              ELSE 32 * cum[i - 1] + 16 * obs[i][2]
      V(i) == IF i = 0 THEN lo * 100 ELSE IF i > Len(obs) THEN hi * 100
              ELSE Scaled(obs[i][1], 100, 1)
      i == CHOOSE i \in 0..Len(obs) : P(i) <= X /\ X <= P(i + 1)
  IN V(i) + Scaled((V(i + 1) - V(i)) * (X - P(i)), P(i + 1) - P(i), 1)
OkQuantiles(r, c) ==
  LET n == Len(r.q) W == Weight(c.smp) IN
  /\ \A k \in 1..n : MinOf(c.smp) * 100 <= r.q[k] /\ r.q[k] <= MaxOf(c.smp) * 100
  /\ \A k \in 1..n - 1 : r.q[k] <= r.q[k + 1]
  /\ \A k \in 1..n : Near(r.q[k], Quantile(r.bins, W, MinOf(c.smp), MaxOf(c.smp), k - 1), 3)
OkHist(r, c, single) ==
  /\ r.n = Len(c.smp)
  /\ IF c.smp = <<>> THEN r.min = NONE /\ r.max = NONE
     ELSE r.min = MinOf(c.smp) /\ r.max = MaxOf(c.smp)
  /\ OkBins(r, c)
  /\ IF c.smp = <<>> \/ Weight(c.smp) = 0 \/ c.lost THEN TRUE
     ELSE /\ r.sw = Weight(c.smp)
          /\ OkMean(r.mean, c.smp, single)
          /\ IF c.safe THEN OkVar(r.var, c.smp, 0, single)
             ELSE Weight(c.smp) <= 500 =>
                  (0 <= r.var /\ r.var <= Var(c.smp, 0, 1000) + Tol(single, Var(c.smp, 0, 1000)))
          /\ (c.safe /\ r.high # <<>> => OkHigh(r.high, c.smp))
          /\ (r.q # <<>> => OkQuantiles(r, c))
Narrow(c, r) == IF c.poss = {} THEN c ELSE [c EXCEPT !.poss = Matching(r, c)]
=============================================================================
