------------------------------- MODULE Kernel -------------------------------
(* Estimation of a value from scattered points: points have integer         *)
(* coordinates and values, distances are Euclidean (or measured along a     *)
(* line).  A cloud is [p: sequence of points, v: sequence of values].       *)
EXTENDS Num, Trig, ExpLn, Sequences, FiniteSets
LOCAL INSTANCE TLC
Undef == 2000000000
Sq(x) == x * x
D2(a, b) == Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + Sq(a[3] - b[3])
Dists(c, q) == TLCEval([i \in DOMAIN c.p |-> D2(c.p[i], q)])

(* ---- which points are used ---- *)
Closer(ds, i) == Cardinality({j \in DOMAIN ds : ds[j] < ds[i]})
Nearest(ds, k) == {i \in DOMAIN ds : Closer(ds, i) < k}
Settled(ds, k) == Cardinality(Nearest(ds, k)) <= k   \* no tie at the edge
\* a radius counts half units; -1: none
Inside(ds, rad, i) == rad = -1 \/ 4 * ds[i] <= Sq(rad)
Covers(c, S, q) == S # {} /\ \A j \in 1..3 : /\ \E i \in S : c.p[i][j] <= q[j]
                                             /\ \E i \in S : c.p[i][j] >= q[j]
\* weighted means look at the frame of the k nearest, the others at that of
\* the points they use
Used(c, ds, q, k, rad, within, mean) ==
  LET near == Nearest(ds, k)
      kept == {i \in near : Inside(ds, rad, i)}
  IN IF within /\ ~Covers(c, IF mean THEN near ELSE kept, q) THEN {} ELSE kept

RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumOf(f, S \ {i})
Least(f, S) == f[CHOOSE i \in S : \A j \in S : f[i] <= f[j]]
Most(f, S) == f[CHOOSE i \in S : \A j \in S : f[i] >= f[j]]
MeanOf(c, w, S) ==      \* hundredths; the sum of the weights is positive
  LET W == SumOf(w, S)
  IN Scaled(SumOf([i \in S |-> w[i] * c.v[i]], S), W, 100)

(* ---- inverse distance weighting ---- *)
\* (sqrt(m) / sqrt(d))^p, up to a factor
InvW(p, m, d) ==
  CASE p = 0 -> 100000
    [] p = 1 -> Isqrt(Scaled(m, d, 200000) * 10000)
    [] p = 2 -> Scaled(m, d, 100000)
    [] p = 3 -> Scaled(Scaled(m, d, 20000) * Isqrt(Scaled(m, d, 20000) * 20000), 4000, 1)
    [] p = 4 -> Scaled(Sq(Scaled(m, d, 40000)), 16000, 1)
IdwOk(c, q, k, rad, p, within, r) ==
  LET ds == Dists(c, q)
      S == Used(c, ds, q, k, rad, within, TRUE)
      near == Nearest(ds, k)
      hits == {i \in near : ds[i] = 0}
  IN IF S = {} THEN r = <<Undef, 0>> \/ (~Settled(ds, k) /\ within)
     ELSE IF hits # {} THEN \/ r[2] = 1 /\ \E i \in hits : r[1] = 100 * c.v[i]
     ELSE IF ~Settled(ds, k) THEN
       \/ r[1] # Undef /\ 1 <= r[2] /\ r[2] <= k
          /\ 100 * Least(c.v, S) - 1 <= r[1] /\ r[1] <= 100 * Most(c.v, S) + 1
       \/ within /\ r = <<Undef, 0>>
     ELSE LET m == Least(ds, S)
              w == TLCEval([i \in S |-> InvW(p, m, ds[i])])
          IN /\ r[2] = Cardinality(S)
             /\ 100 * Least(c.v, S) - 1 <= r[1] /\ r[1] <= 100 * Most(c.v, S) + 1
             /\ Near(r[1], MeanOf(c, w, S), IF p \in {1, 3} THEN 12 ELSE 4)

(* ---- window functions: weights out of 30000 ---- *)
\* sine and cosine of hundredths of quarters of a degree
SinH(a) == LET i == a \div 100 IN Sin(i) + ((Sin(i + 1) - Sin(i)) * (a % 100)) \div 100
CosH(a) == SinH(a + 36000)
Pi(x) == (36 * x) \div 5     \* the angle pi * x / 10000
Sinc(x) ==
  IF x = 0 THEN 30000
  ELSE LET den == (31416 * (x % 10000)) \div 10000 + 31416 * (x \div 10000)
       IN Scaled(SinH(Pi(x)), den, 10000)
Cube(x) == ((Sq(x) \div 10000) * x) \div 10000     \* x out of 10000
\* x: ten thousandths of the radius; arg, in hundredths
Weight(wf, x, d2, arg, thr) ==
  LET in == x <= 10000
      c1 == CosH(Pi(x))  c2 == CosH(2 * Pi(x))  c3 == CosH(3 * Pi(x))  c4 == CosH(4 * Pi(x))
      S(s) == Scaled(s, 10000, 1)
  IN CASE wf = "boxcar" -> IF in THEN 30000 ELSE 0
       [] wf = "hamming" -> IF in THEN S(5384 * 30000 + 4616 * c1) ELSE 0
       [] wf = "blackman" -> IF in THEN S(4266 * 30000 + 4966 * c1 + 768 * c2) ELSE 0
       [] wf = "nuttall" -> IF in THEN S(3636 * 30000 + 4892 * c1 + 1366 * c2) ELSE 0
       [] wf = "blackman_harris" ->
            IF in THEN S(3588 * 30000 + 4883 * c1 + 1413 * c2 + 117 * c3) ELSE 0
       [] wf = "flat_top" ->
            IF in THEN S(2156 * 30000 + 4166 * c1 + 2773 * c2 + 836 * c3 + 69 * c4) ELSE 0
       [] wf = "lanczos" -> Scaled(Sinc(x) * (Sinc((100 * x) \div arg) \div 2), 15000, 1)
       [] wf = "gaussian" ->       \* (d / sigma)^2 / 2
            IF in THEN (3 * ExpNeg(Scaled(5000 * d2, Sq(arg), 10000))) \div 10 ELSE 0
       [] wf = "parzen" ->         \* thr: (2 * radius + arg) / 4
            IF x <= thr THEN 3 * (10000 - (6 * Sq(x)) \div 10000 + 6 * Cube(x))
            ELSE 6 * Cube(10000 - x)
       [] wf = "parzen_swot" ->
            IF 2 * x <= 10000 THEN 3 * (10000 - (6 * Sq(x)) \div 10000 + 6 * Cube(x))
            ELSE 6 * Cube(10000 - x)
WindowOk(c, q, k, rad, wf, arg, within, r) ==
  LET ds == Dists(c, q)
      S == Used(c, ds, q, k, rad, within, TRUE)
      near == Nearest(ds, k)
      d1000(d) == Isqrt(d * 1000000)
      far == IF rad = -1 THEN (IF near = {} THEN 0 ELSE d1000(Most(ds, near))) ELSE 500 * rad
  IN IF S = {} THEN r = <<Undef, 0>> \/ (~Settled(ds, k) /\ within)
     ELSE IF ~Settled(ds, k) THEN
       \/ r = <<Undef, 0>>
       \/ /\ 1 <= r[2] /\ r[2] <= k
          /\ (wf \in {"flat_top"} \/
              (100 * Least(c.v, S) - 1 <= r[1] /\ r[1] <= 100 * Most(c.v, S) + 1))
     ELSE IF far = 0 THEN
         /\ r[2] = Cardinality(S)
         /\ Near(r[1], MeanOf(c, [i \in S |-> 1], S), 1)
     ELSE LET thr == IF wf = "parzen" THEN 5000 + Scaled(25 * arg, far, 1000) ELSE 0
              xs == TLCEval([i \in S |-> Scaled(d1000(ds[i]), far, 10000)])
              w == TLCEval([i \in S |-> Weight(wf, xs[i], ds[i], arg, thr)])
              \* on the edge of a jump
              edge == wf = "parzen" /\ arg # 0 /\ \E i \in S : Abs(xs[i] - thr) < 4
              W == SumOf(w, S)
              V == Max2(Abs(Least(c.v, S)), Abs(Most(c.v, S)))
              n == Cardinality(S)
          IN \/ /\ r[1] # Undef /\ r[2] = n
                /\ wf = "flat_top" \/
                   (100 * Least(c.v, S) - 1 <= r[1] /\ r[1] <= 100 * Most(c.v, S) + 1)
                /\ \/ W < 200 \/ edge
                   \/ Near(r[1], MeanOf(c, w, S), 3 + (12 * n * 100 * V) \div W)
             \/ r = <<Undef, 0>> /\ W < 20

(* ---- kernels: radial basis functions and covariances ---- *)
\* Values out of some constant, of a squared distance; e2: square of the
\* parameter (epsilon, range)
R1000(d2) == Isqrt(d2 * 1000000)
X4(d2, e2) == Isqrt(Scaled(d2, e2, 1000000)) * 10       \* 10000 * r / e, r / e < 40
Phi(f, d2, e2) ==
  LET x == X4(d2, e2)
      s3 == (17321 * (x \div 100)) \div 100 + (17321 * (x % 100)) \div 10000
      s5 == (22361 * (x \div 100)) \div 100 + (22361 * (x % 100)) \div 10000
      mq == IF d2 < 19 * e2 THEN Isqrt(100000000 + Scaled(d2, e2, 10000) * 10000)
            ELSE 10 * Isqrt(1000000 + Scaled(d2, e2, 10000) * 100)
  IN CASE f = "linear" -> 5 * R1000(d2)
       [] f = "cubic" -> (R1000(d2) * d2) \div 20
       [] f = "thin_plate" -> IF d2 = 0 THEN 0 ELSE (d2 * Ln(d2)) \div 20
       [] f = "multiquadric" -> mq
       [] f = "inverse_multiquadric" -> 1000000000 \div mq
       [] f = "gaussian" -> ExpNeg(Scaled(d2, e2, 10000))
       [] f = "exponential" -> ExpNeg(x)
       [] f = "matern_12" -> ExpNeg(x)
       [] f \in {"matern_32", "whittle_matern"} ->
            Scaled(ExpNeg(s3), 10000, 10000 + s3)
       [] f = "matern_52" ->
            Scaled(ExpNeg(s5), 10000, 10000 + s5 + Scaled(d2, e2, 10000) + Scaled(2 * d2, 3 * e2, 10000))
       [] f = "cauchy" -> 100000000 \div Max2(1000 + Scaled(d2, e2, 1000), 1)
       [] f = "spherical" ->
            IF d2 > e2 THEN 0 ELSE 100000 - 15 * x + (5 * (Sq(x) \div 10000) * x) \div 10000
       [] f = "linear_cov" -> IF d2 > e2 THEN 0 ELSE 100000 - 10 * x
Scale(f) ==
  CASE f = "linear" -> 5000 [] f = "cubic" -> 50 [] f = "thin_plate" -> 1000
    [] f = "multiquadric" -> 10000 [] OTHER -> 100000
\* The interpolant of n nodes which are all at the same distance b2 from each
\* other: sum of w[i] * phi(r[i]), where (phi(0) - smooth) w[i] + phi(b) (W -
\* w[i]) = v[i].  smooth, in tenths
ClosedOk(f, e2, smooth, v, r2, b2, r) ==
  LET n == Len(v)
      phi == TLCEval([i \in 1..n |-> Phi(f, r2[i], e2)])
      a == Phi(f, 0, e2) - (smooth * Scale(f)) \div 10
      b == IF n = 1 THEN 0 ELSE Phi(f, b2, e2)
      den == a + (n - 1) * b
      dif == a - b
      S == SumOf(v, 1..n)
      P == SumOf(phi, 1..n)
      top == Max2(Abs(a), Max2(Abs(b), Most([i \in 1..n |-> Abs(phi[i])], 1..n)))
      M == Most([i \in 1..n |-> Abs(v[i])], 1..n)
      W == Sgn(den) * Scaled(b * S, Abs(den), 1000)     \* thousandths
      P1 == Scaled(P, 1000, 1)
      num == SumOf([i \in 1..n |-> phi[i] * v[i]], 1..n)
             - P1 * W - Scaled((P - 1000 * P1) * W, 1000, 1)
  IN \/ 10 * Abs(dif) < top \/ 10 * Abs(den) < top     \* ill-conditioned
     \/ Near(r, Sgn(dif) * Scaled(num, Abs(dif), 100), 5 + 10 * M)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : TRUE IN <<i>> \o SeqOf(S \ {i})
Null(f) == f \in {"linear", "cubic", "thin_plate"}      \* phi(0) = 0
\* e2 = -1: the average distance of the nodes
KernelOk(c, q, k, rad, f, e2, smooth, within, r) ==
  LET ds == Dists(c, q)
      S == Used(c, ds, q, k, rad, within, FALSE)
      hits == {i \in S : ds[i] = 0}
      s == TLCEval(SeqOf(S))
      n == Len(s)
      gaps == {D2(c.p[s[i]], c.p[s[j]]) : <<i, j>> \in {z \in (1..n) \X (1..n) : z[1] < z[2]}}
      b2 == IF gaps = {} THEN 0 ELSE CHOOSE g \in gaps : TRUE
  IN IF ~Settled(ds, k) THEN
       IF r[1] = Undef THEN r[2] = 0 /\ (within \/ S = {})
       ELSE 1 <= r[2] /\ r[2] <= k
     ELSE IF S = {} THEN r = <<Undef, 0>>
     ELSE /\ r[1] # Undef /\ r[2] = n
          /\ smooth = 0 => \A i \in hits : Near(r[1], 100 * c.v[i], 2)
          /\ n = 1 /\ (e2 = -1 \/ Null(f)) => r[1] = 100 * c.v[s[1]]
          /\ n \in 1..4 /\ Cardinality(gaps) <= 1 /\ ~(n = 1 /\ (e2 = -1 \/ Null(f))) =>
               ClosedOk(f, IF e2 = -1 THEN b2 ELSE e2, smooth,
                        TLCEval([i \in 1..n |-> c.v[s[i]]]),
                        TLCEval([i \in 1..n |-> ds[s[i]]]), b2, r[1])
\* all that an estimate depends on: the points used
UsedPoints(c, q, k, rad, within, mean) ==
  LET S == Used(c, Dists(c, q), q, k, rad, within, mean)
  IN {<<c.p[i], c.v[i]>> : i \in S}
=============================================================================
