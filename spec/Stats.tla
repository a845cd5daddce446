-------------------------------- MODULE Stats -------------------------------
(* Descriptive statistics: an object stands for a table of cells, each cell *)
(* for the sequence of its samples <<value, weight>>.  Adding two objects   *)
(* concatenates the samples cell by cell; everything reported is a function *)
(* of the samples.  Values and weights are integers (the driver scales).    *)
EXTENDS Num, Sequences, FiniteSetsExt, SequencesExt
NONE == 2000000000        \* a value that is not defined
SKIP == 1999999999        \* not observed
Weight(c) == FoldSeq(LAMBDA s, a : a + s[2], 0, c)
Pow(c, k) == FoldSeq(LAMBDA s, a : a + s[2] * s[1]^k, 0, c)
S1(c) == Pow(c, 1)
\* W * W * variance, W^3 * third and W^4 * fourth central moments
A2(c) == Weight(c) * Pow(c, 2) - S1(c)^2
A3(c) == LET W == Weight(c) IN
  W * W * Pow(c, 3) - 3 * W * S1(c) * Pow(c, 2) + 2 * S1(c)^3
A4(c) == LET W == Weight(c) s == S1(c) IN
  W^3 * Pow(c, 4) - 4 * W * W * s * Pow(c, 3) + 6 * W * s * s * Pow(c, 2) - 3 * s^4
MinOf(c) == Min({s[1] * s[2] : s \in {c[k] : k \in DOMAIN c}})
MaxOf(c) == Max({s[1] * s[2] : s \in {c[k] : k \in DOMAIN c}})
Mean(c, k) == Scaled(S1(c), Weight(c), k)
Var(c, ddof, k) ==
  LET W == Weight(c) IN Scaled(A2(c), W * (W - ddof), k)
Kurtosis(c, k) == Scaled(A4(c), A2(c)^2, k) - 3 * k
\* 100 * A3 / A2^1.5, for small cells
Skewness(c) ==
  LET q == Scaled(A3(c), A2(c), 10000)
      s == Isqrt(A2(c) * 810000)
  IN Sgn(q) * ((((Abs(q) * 900) \div s) + 50) \div 100)

\* ---- tables of cells ------------------------------------------------------
Merge(a, b) == [k \in DOMAIN a |-> a[k] \o b[k]]
Product(s) == FoldSeq(LAMBDA x, a : a * x, 1, s)
\* coordinate along dimension d of flat index k in C order
Coord(shape, k, d) ==
  (k \div Product(SubSeq(shape, d + 1, Len(shape)))) % shape[d]
Kept(shape, axes) == SelectSeq([i \in 1..Len(shape) |-> i], LAMBDA i : i - 1 \notin axes)
ReducedShape(shape, axes) == [i \in 1..Len(Kept(shape, axes)) |-> shape[Kept(shape, axes)[i]]]
\* flat index, in the reduced table, of flat index k
Reduced(shape, axes, k) ==
  LET kept == Kept(shape, axes) IN
  FoldSeq(LAMBDA d, a : a * shape[d] + Coord(shape, k, d), 0, kept)
Sample(v, w, k) == <<v[k], IF w = <<>> THEN 1 ELSE w[k]>>
Table(shape, axes, v, w) ==
  LET red == [k \in 1..Len(v) |-> Reduced(shape, axes, k - 1)]
      all == [k \in 1..Len(v) |-> k]
      mine(j) == SelectSeq(all, LAMBDA k : red[k] = j - 1 /\ v[k] # NONE)
  IN [j \in 1..Product(ReducedShape(shape, axes)) |->
        [i \in 1..Len(mine(j)) |-> Sample(v, w, mine(j)[i])]]
Whole(v, w) ==
  LET mine == SelectSeq([k \in 1..Len(v) |-> k], LAMBDA k : v[k] # NONE)
  IN <<[i \in 1..Len(mine) |-> Sample(v, w, mine[i])]>>
\* ---- what is reported (tol: permitted rounding of mean and variance) -----
Tol(single, x) == IF single THEN 2 + Abs(x) \div 10000 ELSE 1
OkMean(r, c, single) ==
  IF c = <<>> THEN r = NONE
  ELSE Weight(c) = 0 \/ Near(r, Mean(c, 1000), Tol(single, Mean(c, 1000)))
OkVar(r, c, ddof, single) ==
  IF Weight(c) - ddof <= 0 THEN r = NONE
  ELSE IF Weight(c) > 500 THEN r >= 0      \* does not fit TLC's integers
  ELSE Near(r, Var(c, ddof, 1000), Tol(single, Var(c, ddof, 1000)))
OkCell(r, c, single) ==
  /\ r.n = Len(c) /\ r.sw = Weight(c) /\ r.sum = S1(c)
  /\ IF c = <<>> THEN r.min = NONE /\ r.max = NONE
     ELSE r.min = MinOf(c) /\ r.max = MaxOf(c)
  /\ OkMean(r.mean, c, single)
  /\ OkVar(r.var, c, 0, single)
  /\ r.var1 = SKIP \/ OkVar(r.var1, c, 1, single)
  /\ (IF r.var = NONE THEN r.std = NONE ELSE r.var > 100000000 \/ Near(r.std, Isqrt(r.var * 10), 2))
OkHigh(r, c) ==
  IF Weight(c) = 0 \/ Weight(c) > 12 THEN TRUE
  ELSE IF \E k \in DOMAIN c : Abs(c[k][1]) > 9 THEN TRUE   \* TLC's integers
  ELSE IF A2(c) > 2600 THEN TRUE
  ELSE IF A2(c) = 0 THEN TRUE   \* rounding decides between NaN and noise
  ELSE Near(r[1], Skewness(c), 2) /\ Near(r[2], Kurtosis(c, 100), 2)
=============================================================================
