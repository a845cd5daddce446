-------------------------------- MODULE Fill ---------------------------------
(* Replacement of the undefined cells of a grid.                             *)
(* A grid is a sequence of rows (along X) of cells (along Y); values are     *)
(* integers, in 1/U of a unit of data; NAN is an undefined cell.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE Num
CONSTANT NAN
Undef(v) == v = NAN
NX(g) == Len(g)
NY(g) == Len(g[1])
Cells(g) == (1..NX(g)) \X (1..NY(g))
Defined(g) == {c \in Cells(g) : ~Undef(g[c[1]][c[2]])}
HasGap(g) == \E c \in Cells(g) : Undef(g[c[1]][c[2]])
Values(g) == {g[c[1]][c[2]] : c \in Defined(g)}
SetMin(S) == CHOOSE a \in S : \A b \in S : a <= b
SetMax(S) == CHOOSE a \in S : \A b \in S : a >= b
Map(g, F(_)) == [x \in 1..NX(g) |-> [y \in 1..NY(g) |-> F(g[x][y])]]

----------------------------------------------------------------------------
(* Relaxation of Gauss-Seidel: the cells of one colour, then those of the    *)
(* other, are moved towards the mean of their four neighbours. Edges are     *)
(* mirrored, except those of a circle. Which colour is first is free. The    *)
(* computation uses 1/(64 U); w is the relaxation, in 1/4096.                *)
Fine == 64
RECURSIVE ZonalSum(_, _, _, _)
ZonalSum(g, y, x, acc) ==
  IF x = 0 THEN acc
  ELSE ZonalSum(g, y, x - 1, IF Undef(g[x][y]) THEN acc
                             ELSE [s |-> acc.s + g[x][y], n |-> acc.n + 1])
Zonal(g, y) == LET a == ZonalSum(g, y, NX(g), [s |-> 0, n |-> 0])
               IN IF a.n = 0 THEN 0 ELSE Scaled(a.s, a.n, Fine)
FirstGuess(g, guess) ==
  LET z == IF guess = "zero" THEN [y \in 1..NY(g) |-> 0]
           ELSE TLCEval([y \in 1..NY(g) |-> Zonal(g, y)])
  IN TLCEval([x \in 1..NX(g) |-> [y \in 1..NY(g) |->
       IF Undef(g[x][y]) THEN z[y] ELSE Fine * g[x][y]]])
\* neighbours along an axis of n cells
Before(i, n, circle) == IF i > 1 THEN i - 1 ELSE IF circle THEN n ELSE Min2(2, n)
After(i, n, circle) == IF i < n THEN i + 1 ELSE IF circle THEN 1 ELSE Max2(n - 1, 1)
RECURSIVE Colour(_, _, _, _, _, _, _)
\* one sweep of colour c, from row x: [g, res]
Colour(g, hole, circle, w, c, x, res) ==
  IF x > NX(g) THEN [g |-> g, res |-> res]
  ELSE LET n == NX(g)
           m == NY(g)
           a == g[Before(x, n, circle)]
           b == g[After(x, n, circle)]
           r == g[x]
           mine(y) == hole[x][y] /\ (x + y) % 2 = c
           d == TLCEval([y \in 1..m |->
                  IF mine(y)
                  THEN Scaled(a[y] + b[y] + r[Before(y, m, FALSE)] + r[After(y, m, FALSE)] - 4 * r[y],
                              4 * 4096, w)
                  ELSE 0])
           row == TLCEval([y \in 1..m |-> r[y] + d[y]])
           top == SetMax({res} \cup {Abs(d[y]) : y \in 1..m})
       IN Colour(TLCEval([g EXCEPT ![x] = row]), hole, circle, w, c, x + 1, top)
Sweep(g, hole, circle, w, first) ==
  LET one == Colour(g, hole, circle, w, first, 1, 0)
      two == Colour(one.g, hole, circle, w, 1 - first, 1, 0)
  IN [g |-> two.g, res |-> Max2(one.res, two.res)]
RECURSIVE Iterate(_, _, _, _, _, _, _, _)
\* The possible ends: a residual as close as slack to eps may end or not.
Iterate(s, hole, circle, w, first, k, eps, slack) ==
  IF k = 0 THEN {s}
  ELSE LET t == TLCEval(Sweep(s.g, hole, circle, w, first))
           n == [g |-> t.g, res |-> t.res, it |-> s.it + 1]
       IN IF n.res < eps - slack THEN {n}
          ELSE IF n.res >= eps + slack THEN Iterate(n, hole, circle, w, first, k - 1, eps, slack)
          ELSE {n} \cup Iterate(n, hole, circle, w, first, k - 1, eps, slack)
Holes(g) == TLCEval([x \in 1..NX(g) |-> [y \in 1..NY(g) |-> Undef(g[x][y])]])
\* p = [guess, circle, w, maxit, eps, slack]; the set of possible results
GaussSeidel(g, p, first) ==
  IF ~HasGap(g) THEN {[g |-> Map(g, LAMBDA v : Fine * v), res |-> 0, it |-> 0]}
  ELSE Iterate([g |-> FirstGuess(g, p.guess), res |-> 0, it |-> 0], Holes(g),
               p.circle, p.w, first, p.maxit, p.eps, p.slack)
\* the relaxation chosen for a grid: 2 / (1 + pi / n), in 1/4096
DefaultRelaxation(nx, ny) ==
  LET n == IF nx = ny THEN 1000 * nx
           ELSE Isqrt(Scaled(2 * nx * nx * ny * ny, nx * nx + ny * ny, 1000) * 1000)
  IN (2 * 4096 * n) \div (n + 3142)

----------------------------------------------------------------------------
(* LOESS: the mean of the defined cells of a window weighted by the tri-cube *)
(* function of the distance, in units of the half sizes of the window.       *)
(* geo = [xs, ys (coordinates in 1/c), c, per (in 1/c, 0: no circle)].       *)
\* the index, from 0, of a cell of a window, mirrored or wrapped
FrameIndex(i, n, circle) ==
  IF circle THEN i % n
  ELSE IF n = 1 THEN 0
  ELSE LET w == i % (2 * (n - 1)) IN IF w >= n THEN 2 * (n - 1) - w ELSE w
Frame(i, half, n, circle) == [k \in 1..2 * half + 1 |-> FrameIndex(i - half - 1 + k - 1, n, circle) + 1]
\* 32768 * d for d2 = num / den <= 1
Root(num, den) == Isqrt(Scaled(num, den, 65536) * 16384)
\* tri-cube weight, in 1/10000
TriCube(num, den) ==
  IF num >= den THEN 0
  ELSE LET d == Root(num, den)
           d3 == (((d * d) \div 32768) * d) \div 32768
           u == 32768 - d3
           u3 == (((u * u) \div 32768) * u) \div 32768
       IN Scaled(u3, 32768, 10000)
RECURSIVE Accumulate(_, _, _, _, _)
\* sums over the cells of the window: st = [w, t, n, lo, hi]
Accumulate(g, win, k, zr, st) ==
  IF k = 0 THEN st
  ELSE LET c == win[k]
           z == g[c.x][c.y]
           w == c.w
       IN IF Undef(z) THEN Accumulate(g, win, k - 1, zr, st)
          ELSE Accumulate(g, win, k - 1, zr,
                 [w |-> st.w + w, t |-> st.t + Scaled((z - zr) * w, 10000, 1),
                  n |-> st.n + 1, lo |-> Min2(st.lo, z), hi |-> Max2(st.hi, z)])
\* the cells of the window which may have a weight
Window(geo, x, y, nx, ny) ==
  LET fx == Frame(x, nx, Len(geo.xs), geo.per > 0)
      fy == Frame(y, ny, Len(geo.ys), FALSE)
      x0 == geo.xs[fx[1]]
      norm(v) == IF geo.per > 0 THEN x0 + ((v - x0) % geo.per) ELSE v
      xc == norm(geo.xs[x])
      dx(k) == Abs(norm(geo.xs[fx[k]]) - xc)
      dy(k) == Abs(geo.ys[fy[k]] - geo.ys[y])
      KX == SelectSeq([k \in 1..Len(fx) |-> k], LAMBDA k : dx(k) <= geo.c * nx)
      KY == SelectSeq([k \in 1..Len(fy) |-> k], LAMBDA k : dy(k) <= geo.c * ny)
      n == Len(KX) * Len(KY)
      den == (geo.c * nx * ny) * (geo.c * nx * ny)
      cell(i) == LET kx == KX[((i - 1) \div Len(KY)) + 1]
                     ky == KY[((i - 1) % Len(KY)) + 1]
                     num == (dx(kx) * ny) * (dx(kx) * ny) + (dy(ky) * nx) * (dy(ky) * nx)
                 IN [x |-> fx[kx], y |-> fy[ky], w |-> TriCube(num, den), edge |-> num = den, in |-> num <= den]
  IN SelectSeq(TLCEval([i \in 1..n |-> cell(i)]), LAMBDA c : c.in)
Huge == 2000000
\* w = 0: the weights, if any (some), are too small to be known; the cells
\* exactly on the edge of the window (rim) may weigh nothing
LoessCell(g, geo, x, y, nx, ny) ==
  LET win == SelectSeq(Window(geo, x, y, nx, ny), LAMBDA c : ~Undef(g[c.x][c.y]))
      zr == IF win = <<>> THEN 0 ELSE g[win[1].x][win[1].y]
      s == Accumulate(g, win, Len(win), zr,
                      [w |-> 0, t |-> 0, n |-> 0, lo |-> Huge, hi |-> -Huge])
      some == \E i \in DOMAIN win : ~win[i].edge
      ok == [w |-> s.w, lo |-> s.lo, hi |-> s.hi, some |-> some, any |-> win # <<>>]
  IN IF s.w = 0 THEN ok @@ [v |-> NAN, tol |-> 0]
     ELSE LET a == s.t * 100
              q == Sgn(a) * (Abs(a) \div s.w)
              r == Sgn(a) * (((Abs(a) % s.w) * 100) \div s.w)
          IN ok @@ [v |-> zr + 100 * q + r,
                    tol |-> 3 + (s.n * (6000 + 2 * (s.hi - s.lo))) \div s.w]
Treated(v, type) == type = "all" \/ (type = "undefined") = Undef(v)
\* r is the result of LOESS for the cell
LoessResult(g, geo, x, y, nx, ny, type, r) ==
  LET z == g[x][y]
  IN IF ~Treated(z, type) THEN r = z
     ELSE LET e == LoessCell(g, geo, x, y, nx, ny)
              hull == r # NAN /\ e.lo - 1 <= r /\ r <= e.hi + 1
          IN IF ~e.some THEN r = z \/ (e.any /\ hull)
             ELSE hull /\ (e.w > 0 => Near(r, e.v, e.tol))

----------------------------------------------------------------------------
(* Lines: undefined points are on the segment between their neighbours, and  *)
(* beyond the ends continue with the mean slope between the first and last   *)
(* defined points. A line with less than two defined points is left as is.   *)
Valid(line) == {i \in DOMAIN line : ~Undef(line[i])}
FillLine(line) ==
  LET V == Valid(line)
  IN IF Cardinality(V) < 2 THEN line
     ELSE LET f == SetMin(V)
              z == SetMax(V)
              at(i) == IF i \in V THEN line[i]
                       ELSE IF i < f THEN line[f] - Scaled((line[z] - line[f]) * (f - i), z - f, 1)
                       ELSE IF i > z THEN line[z] + Scaled((line[z] - line[f]) * (i - z), z - f, 1)
                       ELSE LET a == SetMax({j \in V : j < i})
                                b == SetMin({j \in V : j > i})
                            IN line[a] + Scaled((line[b] - line[a]) * (i - a), b - a, 1)
          IN TLCEval([i \in DOMAIN line |-> at(i)])
Column(g, y) == [x \in 1..NX(g) |-> g[x][y]]
\* rows first, then columns
FillMatrix(g) ==
  LET rows == TLCEval([x \in 1..NX(g) |-> FillLine(g[x])])
      cols == TLCEval([y \in 1..NY(g) |-> FillLine(Column(rows, y))])
  IN TLCEval([x \in 1..NX(g) |-> [y \in 1..NY(g) |-> cols[y][x]]])
Rotate(g, k) == [x \in 1..NX(g) |-> g[((x - 1 + k) % NX(g)) + 1]]
=============================================================================
