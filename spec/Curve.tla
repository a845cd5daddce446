------------------------------- MODULE Curve -------------------------------
(* Curves through points of the plane: xs is a strictly increasing sequence *)
(* of integers whose steps divide 12, ys a sequence of integers.  Positions *)
(* count eighths of a unit; values and slopes count ten thousandths.        *)
EXTENDS Num, Sequences
LOCAL INSTANCE TLC
Undef == 2000000000
U == 10000
Kinds == {"linear", "polynomial", "c_spline", "c_spline_periodic", "akima",
          "akima_periodic", "steffen"}
MinSize(kind) == CASE kind = "linear" -> 2
                   [] kind = "polynomial" -> 3
                   [] kind = "c_spline" -> 4
                   [] kind = "c_spline_periodic" -> 2
                   [] kind \in {"akima", "akima_periodic"} -> 5
                   [] kind = "steffen" -> 3
Rdiv(a, b) == (a + (b \div 2)) \div b
Step(xs, i) == xs[i + 1] - xs[i]
\* slope of an interval, in twelfths, then in ten thousandths
M12(xs, ys, i) == (12 * (ys[i + 1] - ys[i])) \div Step(xs, i)
M(xs, ys, i) == Scaled(M12(xs, ys, i), 12, U)

(* ---- slopes at the points ---- *)
\* Steffen: monotonic between the points
SteffenAt(xs, ys, i) ==
  LET n == Len(xs) IN
  IF i = 1 THEN M(xs, ys, 1)
  ELSE IF i = n THEN M(xs, ys, n - 1)
  ELSE LET h0 == Step(xs, i - 1)  h1 == Step(xs, i)
           s0 == M12(xs, ys, i - 1)  s1 == M12(xs, ys, i)
           p == Abs(s0 * h1 + s1 * h0)       \* over h0 + h1
           m == Min2(Abs(s0), Abs(s1))
           v == IF p < 2 * m * (h0 + h1) THEN Scaled(p, 24 * (h0 + h1), U)
                ELSE Scaled(m, 12, U)
       IN (Sgn(s0) + Sgn(s1)) * v
\* Akima: mean of the slopes of the two intervals, weighted by the change of
\* slope on the other side; two intervals are made up on each side
AkimaM(xs, ys, i, per) ==
  LET n == Len(xs)
      m(k) == M12(xs, ys, k)
  IN CASE i = -1 -> IF per THEN m(n - 2) ELSE 3 * m(1) - 2 * m(2)
       [] i = 0 -> IF per THEN m(n - 1) ELSE 2 * m(1) - m(2)
       [] i = n -> IF per THEN m(1) ELSE 2 * m(n - 1) - m(n - 2)
       [] i = n + 1 -> IF per THEN m(2) ELSE 3 * m(n - 1) - 2 * m(n - 2)
       [] OTHER -> m(i)
AkimaAt(xs, ys, i, per) ==
  LET a == AkimaM(xs, ys, i - 2, per)  b == AkimaM(xs, ys, i - 1, per)
      c == AkimaM(xs, ys, i, per)      d == AkimaM(xs, ys, i + 1, per)
      w0 == Abs(b - a)  w1 == Abs(d - c)
  IN IF w0 + w1 = 0 THEN Scaled(b + c, 24, U)
     ELSE Scaled(w1 * b + w0 * c, 12 * (w0 + w1), U)
\* cubic splines: the second derivative is continuous, and null at the ends
\* or the same at both; the system is solved by relaxation
SplineEq(h0, h1, m0, m1, d0, d2) ==
  Rdiv(3 * (h1 * m0 + h0 * m1) - h1 * d0 - h0 * d2, 2 * (h0 + h1))
Relaxed(xs, m, d, i, per) ==
  LET n == Len(xs) IN
  IF per THEN
    IF i = 1 THEN d[n]
    ELSE IF i = n THEN SplineEq(Step(xs, n - 1), Step(xs, 1), m[n - 1], m[1], d[n - 1], d[2])
    ELSE SplineEq(Step(xs, i - 1), Step(xs, i), m[i - 1], m[i], d[i - 1], d[i + 1])
  ELSE
    IF i = 1 THEN Rdiv(3 * m[1] - d[2], 2)
    ELSE IF i = n THEN Rdiv(3 * m[n - 1] - d[n - 1], 2)
    ELSE SplineEq(Step(xs, i - 1), Step(xs, i), m[i - 1], m[i], d[i - 1], d[i + 1])
RECURSIVE Sweep(_, _, _, _, _)
Sweep(xs, m, d, i, per) ==
  IF i > Len(xs) THEN d
  ELSE Sweep(xs, m, TLCEval([d EXCEPT ![i] = Relaxed(xs, m, d, i, per)]), i + 1, per)
RECURSIVE Relax(_, _, _, _, _)
Relax(xs, m, d, k, per) ==
  LET e == Sweep(xs, m, d, 1, per)
  IN IF k = 0 \/ e = d THEN e ELSE Relax(xs, m, e, k - 1, per)
SplineSlopes(xs, ys, per) ==
  LET m == TLCEval([i \in 1..(Len(xs) - 1) |-> M(xs, ys, i)])
      d == [i \in 1..Len(xs) |-> IF i = 1 THEN m[1] ELSE m[i - 1]]
  IN Relax(xs, m, d, 30, per)
Slopes(kind, xs, ys) ==
  TLCEval(CASE kind \in {"linear", "polynomial"} -> <<>>
            [] kind = "c_spline" -> SplineSlopes(xs, ys, FALSE)
            [] kind = "c_spline_periodic" -> SplineSlopes(xs, ys, TRUE)
            [] kind = "akima" -> [i \in DOMAIN xs |-> AkimaAt(xs, ys, i, FALSE)]
            [] kind = "akima_periodic" -> [i \in DOMAIN xs |-> AkimaAt(xs, ys, i, TRUE)]
            [] kind = "steffen" -> [i \in DOMAIN xs |-> SteffenAt(xs, ys, i)])

(* ---- between the points ---- *)
Outside(xs, q) == q < 8 * xs[1] \/ q > 8 * xs[Len(xs)]
Interval(xs, q) ==
  IF q = 8 * xs[1] THEN 1
  ELSE CHOOSE i \in 1..(Len(xs) - 1) : 8 * xs[i] < q /\ q <= 8 * xs[i + 1]
\* the cubic with these values and slopes at both ends: value, slope
Hermite(y0, y1, d0, d1, h, k) ==
  LET n == 8 * h
      D == U * (y1 - y0)
      A == h * d0 - D   B == D - h * d1
      e == A + Scaled(B - A, n, k)
  IN <<U * y0 + Scaled(D, n, k) + Scaled(Scaled(e, n, k), n, n - k),
       Rdiv(D + Scaled(e, n, n - 2 * k) + Scaled(Scaled(B - A, n, k), n, n - k), h)>>
\* the polynomial: Neville's scheme on pairs value, slope
NevStep(xs, T, l, q) ==
  [i \in 1..(Len(xs) - l) |->
     LET a == T[i]  b == T[i + 1]  w == 8 * (xs[i + l] - xs[i])  k == q - 8 * xs[i]
     IN <<a[1] + Scaled(b[1] - a[1], w, k),
          a[2] + Scaled(b[2] - a[2], w, k) + Rdiv(b[1] - a[1], xs[i + l] - xs[i])>>]
RECURSIVE Neville(_, _, _, _)
Neville(xs, T, l, q) ==
  IF l = Len(xs) THEN T[1] ELSE Neville(xs, TLCEval(NevStep(xs, T, l, q)), l + 1, q)
\* value and slope at q
At(kind, xs, ys, sl, q) ==
  IF Outside(xs, q) THEN <<Undef, Undef>>
  ELSE LET i == Interval(xs, q) IN
       IF kind = "linear" THEN
         <<U * ys[i] + Scaled(U * (ys[i + 1] - ys[i]), 8 * Step(xs, i), q - 8 * xs[i]), M(xs, ys, i)>>
       ELSE IF kind = "polynomial" THEN
         Neville(xs, [j \in DOMAIN ys |-> <<U * ys[j], 0>>], 1, q)
       ELSE Hermite(ys[i], ys[i + 1], sl[i], sl[i + 1], Step(xs, i), q - 8 * xs[i])

(* ---- interpolation on a window of the points of an axis ---- *)
Dist(xs, i, q) == Abs(q - 8 * xs[i])
\* between two points, the last one
Nearest(xs, q) == CHOOSE i \in DOMAIN xs : \A j \in DOMAIN xs :
                    Dist(xs, i, q) < Dist(xs, j, q) \/ (Dist(xs, i, q) = Dist(xs, j, q) /\ j <= i)
First(xs, q, half) == Max2(Nearest(xs, q) - half, 1)
Last(xs, q, half) == Min2(Nearest(xs, q) + half, Len(xs))
Enough(kind, xs, q, half) == Last(xs, q, half) - First(xs, q, half) + 1 >= MinSize(kind)
WindowAt(kind, xs, ys, half, q) ==
  LET wx == SubSeq(xs, First(xs, q, half), Last(xs, q, half))
      wy == SubSeq(ys, First(xs, q, half), Last(xs, q, half))
  IN At(kind, wx, wy, Slopes(kind, wx, wy), q)[1]
\* a position on an axis of period per (0: none)
Turn(xs, per, q) == IF per = 0 THEN q ELSE 8 * xs[1] + ((q - 8 * xs[1]) % (8 * per))
=============================================================================
