------------------------------- MODULE Rtree -------------------------------
(* A spatial index: a store of points, each with a value, loaded in bulk or *)
(* inserted, and queried for the neighbours of a position.                  *)
(*  "ecef"  Cartesian coordinates, exact integers                           *)
(*  "lla"   longitude, latitude (quarters of a degree) and altitude on a    *)
(*          sphere of radius 10000; distances are those of the chords       *)
(*  "geo"   longitude and latitude on that sphere, great circle distances   *)
(* A store holds entries [c (as given), p (Cartesian), v].                  *)
EXTENDS Num, Trig, Sequences, FiniteSets
LOCAL INSTANCE TLC    \* TLCEval: evaluate a function once
Radius == 10000
Spherical(c) ==
  LET n == Radius + c[3]
      h == Scaled(n * Cos(c[2]), 30000, 1)
  IN <<Scaled(h * Cos(c[1]), 30000, 1), Scaled(h * Sin(c[1]), 30000, 1),
       Scaled(n * Sin(c[2]), 30000, 1)>>
Three(c) == IF Len(c) = 2 THEN <<c[1], c[2], 0>> ELSE c
Cart(kind, c) == IF kind = "ecef" THEN Three(c) ELSE Spherical(Three(c))
Entry(kind, c, v) == [c |-> Three(c), p |-> Cart(kind, c), v |-> v]
Entries(kind, cs, vs) == [i \in DOMAIN cs |-> Entry(kind, cs[i], vs[i])]

Empty(kind, tol) == [kind |-> kind, tol |-> tol, pts |-> <<>>]
Pack(t, cs, vs) == [t EXCEPT !.pts = Entries(t.kind, cs, vs)]
Insert(t, cs, vs) == [t EXCEPT !.pts = @ \o Entries(t.kind, cs, vs)]
Clear(t) == [t EXCEPT !.pts = <<>>]

Sq(x) == x * x
D2(a, b) == Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + Sq(a[3] - b[3])
\* a reported distance r: hundredths of a unit (ecef) or units
Quarter(a) ==   \* 30000 * sin of a hundredths of quarters of a degree
  LET i == a \div 100 IN Sin(i) + ((Sin(i + 1) - Sin(i)) * (a % 100)) \div 100
DistOk(t, r, d2) ==
  CASE t.kind = "ecef" -> r >= 0 /\ d2 * 10000 <= Sq(r + 1) /\ Sq(Max2(r - 1, 0)) <= d2 * 10000
    [] t.kind = "lla"  -> Near(r, Isqrt(d2), t.tol)
    [] OTHER -> r >= 0 /\ r <= 31420 /\
                Near((2 * Quarter((r * 11459) \div 10000)) \div 3, Isqrt(d2), t.tol + Isqrt(d2) \div 300)
\* the point at d2 = a may come before the one at b
NotAfter(t, a, b) ==
  CASE t.kind = "ecef" -> a <= b
    [] t.kind = "lla"  -> Isqrt(a) <= Isqrt(b) + t.tol
    [] OTHER -> Isqrt(a) <= Isqrt(b) + t.tol + Isqrt(b) \div 150
Dists(t, q) == TLCEval([i \in DOMAIN t.pts |-> D2(t.pts[i].p, q)])
Covers(t, S, q) ==      \* the box of the points S
  LET x == IF t.kind = "ecef" THEN 0 ELSE t.tol
  IN S # {} /\ \A j \in 1..3 : /\ \E i \in S : t.pts[i].p[j] <= q[j] + x
                               /\ \E i \in S : t.pts[i].p[j] >= q[j] - x
Sorted(t, ds) == \A i \in 1..(Len(ds) - 1) : NotAfter(t, ds[i], ds[i + 1])
\* sel: a sequence of indexes of distinct points, the k nearest, nearest first
KNearest(t, q, k, sel) ==
  LET ds == Dists(t, q)
      S == {sel[i] : i \in DOMAIN sel}
      m == IF k < Len(t.pts) THEN k ELSE Len(t.pts)
  IN /\ Len(sel) = m /\ Cardinality(S) = m /\ S \subseteq DOMAIN t.pts
     /\ Sorted(t, [i \in DOMAIN sel |-> ds[sel[i]]])
     /\ m > 0 => \A i \in DOMAIN t.pts \ S : NotAfter(t, ds[sel[m]], ds[i])
\* the k nearest are the same for everyone
Settled(t, q, k) ==
  LET ds == Dists(t, q)
      near == {i \in DOMAIN ds : Cardinality({j \in DOMAIN ds : ds[j] < ds[i]}) < k}
  IN Cardinality(near) <= k
Nearest(t, q, k) ==
  LET ds == Dists(t, q)
  IN {i \in DOMAIN ds : Cardinality({j \in DOMAIN ds : ds[j] < ds[i]}) < k}
IndexOf(t, v) == IF \E i \in DOMAIN t.pts : t.pts[i].v = v
                 THEN CHOOSE i \in DOMAIN t.pts : t.pts[i].v = v ELSE 0
\* the option "within": everything, or nothing if the points found do not
\* frame the position
NothingOk(t, q, k) ==
  CASE t.pts = <<>> \/ k = 0 -> TRUE
    [] t.kind # "ecef" -> \A i \in DOMAIN t.pts : t.pts[i].p # q
    [] Settled(t, q, k) -> ~Covers(t, Nearest(t, q, k), q)
    [] OTHER -> \E i \in Nearest(t, q, k) : t.pts[i].p # q
\* rows of a query: <<distance, value>>, <<-1, -1>> where there is nothing
QueryOk(t, q, k, within, rows) ==
  LET found == SelectSeq(rows, LAMBDA r : r[1] # -1)
      sel == [i \in DOMAIN found |-> IndexOf(t, found[i][2])]
  IN /\ Len(rows) = k
     /\ \A i \in DOMAIN rows : IF i <= Len(found) THEN rows[i] = found[i] ELSE rows[i] = <<-1, -1>>
     /\ IF found = <<>> THEN IF within THEN NothingOk(t, q, k) ELSE KNearest(t, q, k, <<>>)
        ELSE /\ KNearest(t, q, k, sel)
             /\ \A i \in DOMAIN sel : DistOk(t, found[i][1], D2(t.pts[sel[i]].p, q))
             /\ within => t.kind = "geo" \/ Covers(t, {sel[i] : i \in DOMAIN sel}, q)
\* coordinates returned for an entry: exact, or hundredths of a quarter of a
\* degree and units
SameLon(a, b, tol) == LET d == (a - b) % 144000 IN d <= tol \/ d >= 144000 - tol
CoordOk(t, c, e) ==
  IF t.kind = "ecef" THEN c = SubSeq(e.c, 1, Len(c))
  ELSE /\ Near(c[2], 100 * e.c[2], 30)
       /\ \/ SameLon(c[1], 100 * e.c[1], 30)
          \/ Abs(e.c[2]) >= 352    \* at a pole, longitude means nothing
       /\ Len(c) = 3 => Near(c[3], e.c[3], t.tol)
\* rows <<coordinates, value>> of value(): <<>> where there is nothing
ValueOk(t, q, k, radius, within, rows) ==
  LET found == SelectSeq(rows, LAMBDA r : r # <<>>)
      sel == [i \in DOMAIN found |-> IndexOf(t, found[i][2])]
      S == {sel[i] : i \in DOMAIN sel}
      ds == Dists(t, q)
      inside(i) == radius = -1 \/ ds[i] <= Sq(radius)
      out(i) == radius # -1 /\ ds[i] > Sq(radius)
  IN /\ Len(rows) = k
     /\ \A i \in DOMAIN rows : IF i <= Len(found) THEN rows[i] = found[i] ELSE rows[i] = <<>>
     /\ S \subseteq DOMAIN t.pts /\ Cardinality(S) = Len(found)
     /\ \A i \in DOMAIN found : CoordOk(t, found[i][1], t.pts[sel[i]])
     /\ Sorted(t, [i \in DOMAIN sel |-> ds[sel[i]]])
     /\ t.kind = "ecef" =>
          LET near == Nearest(t, q, k)
              kept == {i \in near : inside(i)}
          IN /\ S \subseteq kept
             /\ within /\ S # {} => Covers(t, S, q)
             /\ S = {} => kept = {} \/ (within /\ (Settled(t, q, k) => ~Covers(t, kept, q)))
             /\ S # {} => Cardinality(S) = (IF Cardinality(kept) < k THEN Cardinality(kept) ELSE k)
             \* what is left out is not nearer
             /\ S # {} => \A i \in kept \ S : ds[i] >= ds[sel[Len(sel)]]
     /\ t.kind # "ecef" /\ radius = -1 /\ found # <<>> => KNearest(t, q, k, sel)
     /\ t.kind # "ecef" /\ radius = -1 /\ found = <<>> =>
          IF within THEN NothingOk(t, q, k) ELSE t.pts = <<>> \/ k = 0
\* <<>> or <<lower corner, upper corner>>
BoundsOk(t, b) ==
  IF t.pts = <<>> THEN b = <<>>
  ELSE \A j \in 1..3 :
    LET u == IF t.kind = "ecef" \/ j = 3 THEN 1 ELSE 100
        x == IF t.kind = "ecef" THEN 0 ELSE IF j = 3 THEN t.tol ELSE 30
        norm(x0) == IF t.kind # "ecef" /\ j = 1 THEN ((x0 + 720) % 1440) - 720 ELSE x0
        cs == {u * norm(t.pts[i].c[j]) : i \in DOMAIN t.pts}
        lo == CHOOSE c \in cs : \A d \in cs : c <= d
        hi == CHOOSE c \in cs : \A d \in cs : c >= d
    IN Len(b) = 2 /\ Near(b[1][j], lo, x) /\ Near(b[2][j], hi, x)
=============================================================================
