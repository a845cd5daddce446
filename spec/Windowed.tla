------------------------------- MODULE Windowed -------------------------------
(* Interpolation of grids over a window of nodes around the position: along  *)
(* X for each column of the window, then along Y (the bicubic patch is the   *)
(* tensor product of natural cubic splines), then linearly along the other   *)
(* axes. Coordinates of nodes are integers whose steps divide 12, positions  *)
(* eighths; values are integers in the grid, 1/U once interpolated. Each     *)
(* value comes with the error which the arithmetic of this module may make.  *)
EXTENDS Num, Sequences
LOCAL INSTANCE TLC
A == INSTANCE AxisFns
C == INSTANCE Curve
Undef == 2000000000
U == 10000
Kinds == C!Kinds \cup {"bicubic"}
MinSize(kind) == IF kind = "bicubic" THEN C!MinSize("c_spline") ELSE C!MinSize(kind)
Modes == {"undef", "expand", "wrap", "sym"}

(* ---- the nodes of a window, and their coordinates ---- *)
\* axis: [v, C, circ], v in eighths; win: indices from 0
Adjacent(i, j) == i - j = 1 \/ j - i = 1
RECURSIVE Right(_, _, _, _, _), Left(_, _, _, _, _)
\* beyond the edges the coordinates continue the axis, with the spacings of
\* the nodes which replace those missing
Right(a, win, k, step, cs) ==
  IF k > Len(win) THEN cs
  ELSE LET i == win[k - 1]  j == win[k]
           s == IF Adjacent(i, j) THEN Abs(a.v[j + 1] - a.v[i + 1]) ELSE step
       IN Right(a, win, k + 1, s, Append(cs, cs[Len(cs)] + s))
Left(a, win, k, step, cs) ==
  IF k < 1 THEN cs
  ELSE LET i == win[k + 1]  j == win[k]
           s == IF Adjacent(i, j) THEN Abs(a.v[j + 1] - a.v[i + 1]) ELSE step
       IN Left(a, win, k - 1, s, <<cs[1] - s>> \o cs)
RECURSIVE Round(_, _, _, _)
Round(a, win, k, cs) ==
  IF k > Len(win) THEN cs
  ELSE LET d == (a.v[win[k] + 1] - a.v[win[k - 1] + 1]) % a.C
       IN Round(a, win, k + 1, Append(cs, cs[Len(cs)] + (IF d = 0 THEN a.C ELSE d)))
Coordinates(a, win) ==
  LET h == Len(win) \div 2
      lo == a.v[win[h] + 1]  hi == a.v[win[h + 1] + 1]
  IN TLCEval(IF a.circ THEN Round(a, win, 2, <<a.v[win[1] + 1]>>)
             ELSE Right(a, win, h + 2, hi - lo, Left(a, win, h - 1, hi - lo, <<lo, hi>>)))
\* the position, in the central interval of the window
Place(a, win, cs, x) ==
  LET h == Len(win) \div 2
  IN IF a.circ THEN cs[h] + ((x - cs[h]) % a.C) ELSE A!Norm(a, x)

(* ---- a curve: ys in 1/U, known to within noise; result <<value, error>> ---- *)
Gap1(xs, i) == xs[i + 1] - xs[i]
\* slopes, in 1/U for an eighth times 8
M(xs, ys, i) == Scaled(ys[i + 1] - ys[i], Gap1(xs, i), 8)
SteffenAt(xs, ys, i) ==
  LET n == Len(xs) IN
  IF i = 1 THEN M(xs, ys, 1)
  ELSE IF i = n THEN M(xs, ys, n - 1)
  ELSE LET h0 == Gap1(xs, i - 1)  h1 == Gap1(xs, i)
           s0 == M(xs, ys, i - 1)  s1 == M(xs, ys, i)
           p == Abs(Scaled(s0, h0 + h1, h1) + Scaled(s1, h0 + h1, h0))
           m == Min2(Abs(s0), Abs(s1))
       IN (Sgn(s0) + Sgn(s1)) * (IF p < 2 * m THEN C!Rdiv(p, 2) ELSE m)
AkimaM(xs, ys, i, per) ==
  LET n == Len(xs)
      m(k) == M(xs, ys, k)
  IN CASE i = -1 -> IF per THEN m(n - 2) ELSE 3 * m(1) - 2 * m(2)
       [] i = 0 -> IF per THEN m(n - 1) ELSE 2 * m(1) - m(2)
       [] i = n -> IF per THEN m(1) ELSE 2 * m(n - 1) - m(n - 2)
       [] i = n + 1 -> IF per THEN m(2) ELSE 3 * m(n - 1) - 2 * m(n - 2)
       [] OTHER -> m(i)
\* <<slope, error>>
AkimaAt(xs, ys, i, per, noise) ==
  LET a == AkimaM(xs, ys, i - 2, per)  b == AkimaM(xs, ys, i - 1, per)
      c == AkimaM(xs, ys, i, per)      d == AkimaM(xs, ys, i + 1, per)
      w0 == Abs(b - a)  w1 == Abs(d - c)
      t == (w0 + w1) \div 30000 + 1
  IN IF w0 + w1 <= 40 * (noise + 1) \/ w0 + w1 < 40
     THEN <<C!Rdiv(b + c, 2), Abs(c - b) + 5 + 10 * noise>>
     ELSE <<b + Scaled(c - b, (w0 \div t) + (w1 \div t), w0 \div t),
            10 + 10 * noise + Scaled(Abs(c - b), (w0 + w1) \div t, Min2((20 * (noise + 1)) \div t + 1, (w0 + w1) \div t))
              + (IF t > 1 THEN Abs(c - b) \div 10000 ELSE 0)>>
SplineEq(h0, h1, m0, m1, d0, d2) ==
  Scaled(3 * m0 - d0, 2 * (h0 + h1), h1) + Scaled(3 * m1 - d2, 2 * (h0 + h1), h0)
Relaxed(xs, m, d, i, per) ==
  LET n == Len(xs) IN
  IF per THEN
    IF i = 1 THEN d[n]
    ELSE IF i = n THEN SplineEq(Gap1(xs, n - 1), Gap1(xs, 1), m[n - 1], m[1], d[n - 1], d[2])
    ELSE SplineEq(Gap1(xs, i - 1), Gap1(xs, i), m[i - 1], m[i], d[i - 1], d[i + 1])
  ELSE
    IF i = 1 THEN C!Rdiv(3 * m[1] - d[2], 2)
    ELSE IF i = n THEN C!Rdiv(3 * m[n - 1] - d[n - 1], 2)
    ELSE SplineEq(Gap1(xs, i - 1), Gap1(xs, i), m[i - 1], m[i], d[i - 1], d[i + 1])
RECURSIVE SweepS(_, _, _, _, _)
SweepS(xs, m, d, i, per) ==
  IF i > Len(xs) THEN d
  ELSE SweepS(xs, m, TLCEval([d EXCEPT ![i] = Relaxed(xs, m, d, i, per)]), i + 1, per)
RECURSIVE RelaxS(_, _, _, _, _)
RelaxS(xs, m, d, k, per) ==
  LET e == SweepS(xs, m, d, 1, per)
  IN IF k = 0 \/ e = d THEN e ELSE RelaxS(xs, m, e, k - 1, per)
SplineSlopes(xs, ys, per) ==
  LET m == TLCEval([i \in 1..(Len(xs) - 1) |-> M(xs, ys, i)])
      d == [i \in 1..Len(xs) |-> IF i = 1 THEN m[1] ELSE m[i - 1]]
  IN RelaxS(xs, m, d, 25, per)
\* the cubic with these slopes at both ends of an interval of h eighths
Hermite(y0, y1, d0, d1, h, k) ==
  LET D == y1 - y0
      P == Scaled(d0, 8, h) - D
      Q == D - Scaled(d1, 8, h)
      e == P + Scaled(Q - P, h, k)
  IN y0 + Scaled(D, h, k) + Scaled(Scaled(e, h, k), h, h - k)
RECURSIVE Neville(_, _, _, _)
Neville(xs, T, l, q) ==
  IF l = Len(xs) THEN T[1]
  ELSE Neville(xs, TLCEval([i \in 1..(Len(xs) - l) |->
         T[i] + Scaled(T[i + 1] - T[i], xs[i + l] - xs[i], q - xs[i])]), l + 1, q)
Curve(kind, xs, ys, noise, h, q) ==
  LET k == q - xs[h]
      n == Gap1(xs, h)
      y0 == ys[h]  y1 == ys[h + 1]
      cubic(d0, d1) == Hermite(y0, y1, d0, d1, n, k)
      spline(per) == LET d == SplineSlopes(xs, ys, per) IN cubic(d[h], d[h + 1])
  IN IF kind = "linear" THEN <<y0 + Scaled(y1 - y0, n, k), noise + 1>>
     ELSE IF k = 0 /\ kind # "polynomial" THEN <<y0, noise + 1>>
     ELSE IF k = n /\ kind # "polynomial" THEN <<y1, noise + 1>>
     ELSE IF kind = "polynomial" THEN <<Neville(xs, ys, 1, q), 3 * noise + 15>>
     ELSE IF kind = "steffen" THEN <<cubic(SteffenAt(xs, ys, h), SteffenAt(xs, ys, h + 1)), 4 * noise + 8>>
     ELSE IF kind \in {"akima", "akima_periodic"} THEN
       LET a == AkimaAt(xs, ys, h, kind # "akima", noise)
           b == AkimaAt(xs, ys, h + 1, kind # "akima", noise)
       IN <<cubic(a[1], b[1]), 2 * noise + 5 + Scaled(a[2] + b[2], 32, n)>>
     ELSE <<spline(kind = "c_spline_periodic"), 3 * noise + 10>>

(* ---- the plane ---- *)
\* g[x][y]; wx, wy: windows; <<value, error>>, undefined with any of its nodes
Gap(g, wx, wy) == \E i \in DOMAIN wx, j \in DOMAIN wy : g[wx[i] + 1][wy[j] + 1] = Undef
Plane(kind0, g, ax, ay, wx, wy, x, y) ==
  LET kind == IF kind0 = "bicubic" THEN "c_spline" ELSE kind0
      cx == Coordinates(ax, wx)
      cy == Coordinates(ay, wy)
      px == Place(ax, wx, cx, x)
      py == Place(ay, wy, cy, y)
      hx == Len(wx) \div 2  hy == Len(wy) \div 2
      col == TLCEval([j \in DOMAIN wy |->
               Curve(kind, cx, TLCEval([i \in DOMAIN wx |-> U * g[wx[i] + 1][wy[j] + 1]]), 0, hx, px)])
      top == CHOOSE t \in {col[j][2] : j \in DOMAIN col} : \A j \in DOMAIN col : col[j][2] <= t
  IN Curve(kind, cy, TLCEval([j \in DOMAIN wy |-> col[j][1]]), top, hy, py)

(* ---- the others axes ---- *)
\* outcomes of a position: [st, v, t] with st "ok", "undef" (no value),
\* "out" (no window: an error on request), "few" (an error)
Few(kind, nx, ny) == 2 * nx < MinSize(kind) \/ 2 * ny < MinSize(kind)
Out == [st |-> "out", v |-> Undef, t |-> 0]
Hole == [st |-> "undef", v |-> Undef, t |-> 0]
Ok(r) == [st |-> "ok", v |-> r[1], t |-> r[2]]
Mix(a, b, num, den) == <<a[1] + Scaled(b[1] - a[1], den, num), Max2(a[2], b[2]) + 1>>
\* grid [ax, ay, az, au, data]: data[k][l] is the plane of node k of Z and l
\* of U; az, au = <<>> for the missing axes
Brackets(ax, q) == IF ax = <<>> THEN {[lo |-> 1, hi |-> 1, num |-> 0, den |-> 1]} ELSE A!Cells(ax, q)
Value(g, kind, wx, wy, cz, cu, x, y) ==
  LET at(k, l) == Plane(kind, g.data[k][l], g.ax, g.ay, wx, wy, x, y)
      alongz(l) == IF cz.lo = cz.hi THEN at(cz.lo, l) ELSE Mix(at(cz.lo, l), at(cz.hi, l), cz.num, cz.den)
  IN IF cu.lo = cu.hi THEN alongz(cu.lo) ELSE Mix(alongz(cu.lo), alongz(cu.hi), cu.num, cu.den)
\* the central pair of a window is in the order of the (increasing) axis
Direct(a, w) == w = <<>> \/ LET h == Len(w) \div 2
                               d == w[h + 1] - w[h]
                           IN d = 1 \/ (a.circ /\ d = 1 - Len(a.v))
Windows(a, x, size, mode) == {w \in A!Windows(a, x, size, mode) : Direct(a, w)}
Outcomes(g, kind, nx, ny, mode, x, y, z, u) ==
  LET WX == Windows(g.ax, x, nx, mode)
      WY == Windows(g.ay, y, ny, mode)
      CZ == Brackets(g.az, z)
      CU == Brackets(g.au, u)
      full(S) == {w \in S : w # <<>>}
      hole(wx, wy, cz, cu) == \E k \in {cz.lo, cz.hi}, l \in {cu.lo, cu.hi} : Gap(g.data[k][l], wx, wy)
  IN (IF WX # full(WX) \/ WY # full(WY) \/ CZ = {} \/ CU = {} THEN {Out} ELSE {})
     \cup {IF hole(wx, wy, cz, cu) THEN Hole
           ELSE IF Few(kind, nx, ny) THEN [st |-> "few", v |-> Undef, t |-> 0]
           ELSE Ok(Value(g, kind, wx, wy, cz, cu, x, y)) :
             wx \in full(WX), wy \in full(WY), cz \in CZ, cu \in CU}
=============================================================================
