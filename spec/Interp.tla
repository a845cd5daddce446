-------------------------------- MODULE Interp --------------------------------
(***************************************************************************)
(* Interpolation of gridded values at a position.                          *)
(*                                                                         *)
(* A grid is [x, y, z, u, q]: x, y axes (AxisFns), z, u node sequences (<<>>*)
(* when the grid has no such dimension) and q[k][l][i][j] the integer value *)
(* of node (x_i, y_j, z_k, u_l), or Undef.                                  *)
(*                                                                         *)
(* Results are scaled by 1000.  Since a position on a node belongs to      *)
(* several cells, and the nearest node may not be unique, an outcome is a  *)
(* member of a set of [v, tol] (or NoValue), tol absorbing the rounding of *)
(* the integer arithmetic of this specification.                           *)
(***************************************************************************)
EXTENDS AxisFns, Trig

Undef == 2000000000
S == 1000
NoValue == [v |-> Undef, tol |-> 0]
SetMin(X) == CHOOSE m \in X : \A k \in X : m <= k
SetMax(X) == CHOOSE m \in X : \A k \in X : m >= k

-----------------------------------------------------------------------------
(* Two dimensions, q[i][j] values of one level                             *)
Corners(q, cx, cy) ==
  <<q[cx.lo][cy.lo], q[cx.hi][cy.lo], q[cx.lo][cy.hi], q[cx.hi][cy.hi]>>
SomeUndef(c) == \E i \in 1..4 : c[i] = Undef

Bilinear(q, cx, cy) ==
  LET c == Corners(q, cx, cy)
      den == cx.den * cy.den
      num == (cx.den - cx.num) * (cy.den - cy.num) * c[1]
             + cx.num * (cy.den - cy.num) * c[2]
             + (cx.den - cx.num) * cy.num * c[3]
             + cx.num * cy.num * c[4]
      \* S * num / den without overflow: integer part, then remainder
      int == num \div den
      rem == num % den
  IN IF SomeUndef(c) THEN {NoValue}
     ELSE {[v |-> int * S + (rem * S) \div den, tol |-> 1]}

\* squared half-distance from the position to the four corners; x, y are
\* longitudes and latitudes
NodeDist(g, cx, cy, x, y) ==
  LET d(i, j) == Haversine(x, y, g.x.v[i], g.y.v[j])
  IN <<d(cx.lo, cy.lo), d(cx.hi, cy.lo), d(cx.lo, cy.hi), d(cx.hi, cy.hi)>>
Nearest(g, q, cx, cy, x, y) ==
  LET h == NodeDist(g, cx, cy, x, y)
      c == Corners(q, cx, cy)
      m == SetMin({h[i] : i \in 1..4})
  IN {IF c[i] = Undef THEN NoValue ELSE [v |-> c[i] * S, tol |-> 0] :
        i \in {k \in 1..4 : h[k] <= m + m \div 300 + 30}}

RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) == IF lo >= hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF m * m <= n THEN ISqrtIn(n, m, hi) ELSE ISqrtIn(n, lo, m - 1)
ISqrt(n) == ISqrtIn(n, 0, 46340)

\* 10^3 * (d1/d2)^p from squared distances h1 <= h2
Weight(h1, h2, p) ==
  LET k == h1 \div 200000 + 1
      d == h2 \div k
      n == 10000 * (h1 \div k)
      r == (n \div d) * 100 + (n % d) \div (d \div 100 + 1)  \* 10^6 h1/h2
      w1 == ISqrt(r)
      w2 == r \div 1000
  IN CASE p = 0 -> 1000 [] p = 1 -> w1 [] p = 2 -> w2
       [] p = 3 -> (w1 * w2) \div 1000 [] p = 4 -> (w2 * w2) \div 1000
IDW(g, q, cx, cy, x, y, p) ==
  LET c == Corners(q, cx, cy)
      h == NodeDist(g, cx, cy, x, y)
      onX(i) == (x - g.x.v[i]) % (IF g.x.C > 0 THEN g.x.C ELSE 1440) = 0
      on == {k \in 1..4 : /\ onX(IF k \in {1, 3} THEN cx.lo ELSE cx.hi)
                          /\ y = g.y.v[IF k \in {1, 2} THEN cy.lo ELSE cy.hi]}
      D == [i \in 1..4 |-> HalfDist2(h[i])]
      m == SetMin({D[i] : i \in 1..4})
      w == [i \in 1..4 |-> Weight(m, D[i], p)]
      sw == w[1] + w[2] + w[3] + w[4]
      hi == SetMax({c[i] : i \in 1..4})
      lo == SetMin({c[i] : i \in 1..4})
      sq == w[1] * (c[1] - lo) + w[2] * (c[2] - lo) + w[3] * (c[3] - lo)
            + w[4] * (c[4] - lo)
  IN IF on # {} THEN {IF c[i] = Undef THEN NoValue
                      ELSE [v |-> c[i] * S, tol |-> 0] : i \in on}
     ELSE IF SomeUndef(c) THEN {NoValue}
     ELSE {[v |-> lo * S + (S * sq) \div sw, tol |-> 10 + (hi - lo) * 10]}

Surface(g, q, cx, cy, x, y, m) ==
  CASE m[1] = "bilinear" -> Bilinear(q, cx, cy)
    [] m[1] = "nearest" -> Nearest(g, q, cx, cy, x, y)
    [] m[1] = "idw" -> IDW(g, q, cx, cy, x, y, m[2])

-----------------------------------------------------------------------------
(* Extra dimensions: two levels combined                                   *)
Mix(A, B, num, den) ==
  {IF a = NoValue \/ b = NoValue THEN NoValue
   ELSE [v |-> (a.v * (den - num) + b.v * num) \div den,
         tol |-> (IF a.tol > b.tol THEN a.tol ELSE b.tol) + 1] :
     a \in A, b \in B}
Level(A, B, c, method) ==
  IF method = "linear" THEN Mix(A, B, c.num, c.den)
  ELSE (IF 2 * c.num <= c.den THEN A ELSE {}) \cup
       (IF 2 * c.num >= c.den THEN B ELSE {})
Line(v) == [v |-> v, C |-> 0, circ |-> FALSE]

(* Outcomes at a position p = <<x, y, z, u>> of a grid.                     *)
Outcomes(g, p, m, zm, um) ==
  LET cxs == Cells(g.x, p[1])
      cys == Cells(g.y, p[2])
      czs == Cells(Line(g.z), p[3])
      cus == Cells(Line(g.u), p[4])
      Srf(k, l, cx, cy) == Surface(g, g.q[k][l], cx, cy, p[1], p[2], m)
      Vol(l, cx, cy) ==
        IF g.z = <<>> THEN Srf(1, l, cx, cy)
        ELSE UNION {Level(Srf(c.lo, l, cx, cy), Srf(c.hi, l, cx, cy), c, zm) :
                      c \in czs}
      All(cx, cy) ==
        IF g.u = <<>> THEN Vol(1, cx, cy)
        ELSE UNION {Level(Vol(c.lo, cx, cy), Vol(c.hi, cx, cy), c, um) :
                      c \in cus}
      inside == /\ cxs # {} /\ cys # {}
                /\ g.z # <<>> => czs # {}
                /\ g.u # <<>> => cus # {}
  IN IF ~inside THEN {NoValue}
     ELSE UNION {All(cx, cy) : cx \in cxs, cy \in cys}
Inside(g, p) == /\ Cells(g.x, p[1]) # {} /\ Cells(g.y, p[2]) # {}
                /\ g.z # <<>> => Cells(Line(g.z), p[3]) # {}
                /\ g.u # <<>> => Cells(Line(g.u), p[4]) # {}

Accept(r, O) == \E o \in O : IF o = NoValue THEN r = Undef
                             ELSE r # Undef /\ Abs(r - o.v) <= o.tol

-----------------------------------------------------------------------------
(* The same grid with its axis x, or y, read the other way                 *)
FlipX(g) == [g EXCEPT !.x = Flip(g.x),
               !.q = [k \in DOMAIN g.q |-> [l \in DOMAIN g.q[k] |->
                        Rev(g.q[k][l])]]]
FlipY(g) == [g EXCEPT !.y = Flip(g.y),
               !.q = [k \in DOMAIN g.q |-> [l \in DOMAIN g.q[k] |->
                        [i \in DOMAIN g.q[k][l] |-> Rev(g.q[k][l][i])]]]]
FlipZ(g) == [g EXCEPT !.z = Rev(g.z), !.q = Rev(g.q)]
=============================================================================
