------------------------------- MODULE FillMC --------------------------------
(* Fill, over every small grid: what is claimed of filled grids.             *)
EXTENDS Fill
LOCAL INSTANCE Num
CONSTANTS Shapes, Vals, Half, Iter, Relax
H == {<<1, 1>>, <<2, 1>>, <<3, 2>>}
S == {<<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<4, 1>>}
Sdeep == {<<3, 2>>, <<2, 3>>, <<5, 1>>, <<1, 6>>}
VARIABLES case, g
vars == <<case, g>>
U == 64
AnyVal == {v * U : v \in Vals} \cup {NAN}
RECURSIVE Rows(_, _)
Row(n) == [1..n -> AnyVal]
Init == case = "" /\ g = <<>>
Rows(n, m) == IF n = 0 THEN {<<>>} ELSE {Append(s, r) : s \in Rows(n - 1, m), r \in Row(m)}
Pick == /\ case = ""
        /\ \E sh \in Shapes : \E r \in Row(sh[2]) : g' = <<r>> /\ case' = ToString(sh[1])
More == /\ case \notin {"", "done"}
        /\ IF case = ToString(Len(g)) THEN case' = "done" /\ g' = g
           ELSE \E r \in Row(Len(g[1])) : g' = Append(g, r) /\ case' = case
Next == Pick \/ More
Spec == Init /\ [][Next]_vars
Done == case = "done"
P(guess, circle, w) == [guess |-> guess, circle |-> circle, w |-> w, maxit |-> Iter, eps |-> 8, slack |-> 1]
Options == {<<gu, ci, w, f>> : gu \in {"zero", "zonal_average"}, ci \in BOOLEAN, w \in Relax, f \in {0, 1}}
Runs(o) == GaussSeidel(g, P(o[1], o[2], o[3]), o[4])
Hull == Values(g) \cup {0}
Same(r, s, k) == \A c \in Cells(g) : Near(r[c[1]][c[2]], s[c[1]][c[2]], k)
(* Gauss-Seidel *)
RelaxKeeps == Done => \A o \in Options : \A r \in Runs(o) :
                \A c \in Defined(g) : r.g[c[1]][c[2]] = Fine * g[c[1]][c[2]]
RelaxHull == Done => \A o \in {p \in Options : p[3] <= 4096} : \A r \in Runs(o) :
               \A c \in Cells(g) : Fine * SetMin(Hull) - 1 <= r.g[c[1]][c[2]]
                                   /\ r.g[c[1]][c[2]] <= Fine * SetMax(Hull) + 1
RelaxConstant == (Done /\ Cardinality(Values(g)) = 1 /\ \A y \in 1..NY(g) : \E x \in 1..NX(g) : ~Undef(g[x][y]))
   => \A o \in {p \in Options : p[1] # "zero"} : \A r \in Runs(o) :
        r.res = 0 /\ \A c \in Cells(g) : r.g[c[1]][c[2]] = Fine * SetMin(Values(g))
\* turning a circle of an even size by a cell exchanges the colours
RelaxRotation == (Done /\ NX(g) % 2 = 0) => \A o \in {p \in Options : p[2]} :
   {[s EXCEPT !.g = Rotate(s.g, 1)] : s \in Runs(o)} = GaussSeidel(Rotate(g, 1), P(o[1], o[2], o[3]), 1 - o[4])
\* a converged grid is harmonic in its gaps
RelaxHarmonic == Done => \A o \in Options : \A r \in Runs(o) : (r.res <= 8 /\ HasGap(g)) =>
   \A c \in Cells(g) \ Defined(g) :
     Abs(r.g[Before(c[1], NX(g), o[2])][c[2]] + r.g[After(c[1], NX(g), o[2])][c[2]]
         + r.g[c[1]][Before(c[2], NY(g), FALSE)] + r.g[c[1]][After(c[2], NY(g), FALSE)]
         - 4 * r.g[c[1]][c[2]]) <= 4 * 10 * (4096 \div SetMin({o[3], 4096}) + 1)
(* LOESS *)
Geo(per, c, step) == [xs |-> [i \in 1..NX(g) |-> i * step], ys |-> [i \in 1..NY(g) |-> i], c |-> c, per |-> per]
Geos == {Geo(0, 1, 1), Geo(0, 2, 1), Geo(NX(g), 1, 1), Geo(2 * NX(g), 1, 2)}
Cell(geo, x, y, h) == LoessCell(g, geo, x, y, h[1], h[2])
Holds(geo, x, y, h) ==
  LET e == Cell(geo, x, y, h)
  IN /\ e.w = 0 => e.v = NAN /\ (e.some => h[1] > 2)
     /\ e.w > 0 => e.lo - 1 <= e.v /\ e.v <= e.hi + 1 /\ e.lo \in Values(g) /\ e.hi \in Values(g)
     /\ (e.w > 0 /\ e.lo = e.hi) => e.v = e.lo
     /\ ~Undef(g[x][y]) => e.w >= 10000
LoessMean == Done => \A geo \in Geos, c \in Cells(g), h \in Half : Holds(geo, c[1], c[2], h)
LoessRotation == (Done /\ NX(g) > 1) => \A c \in Cells(g), h \in Half :
   LET geo == Geo(NX(g), 1, 1)
       e == Cell(geo, c[1], c[2], h)
       f == LoessCell(Rotate(g, 1), geo, ((c[1] - 2) % NX(g)) + 1, c[2], h[1], h[2])
   IN e.w = f.w /\ e.lo = f.lo /\ e.hi = f.hi /\ Near(e.v, f.v, e.tol)
Reflect == \A n \in 2..5, i \in -12..12 :
   LET k == FrameIndex(i, n, FALSE)
   IN /\ k \in 0..n - 1
      /\ FrameIndex(-i, n, FALSE) = k /\ FrameIndex(2 * (n - 1) - i, n, FALSE) = k
      /\ (i \in 0..n - 1 => k = i)
ASSUME Reflect
(* Lines *)
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Line == g[1]
LineKeeps == Done => \A x \in 1..NX(g) : LET f == FillLine(g[x]) IN
   /\ \A i \in Valid(g[x]) : f[i] = g[x][i]
   /\ (Valid(f) = DOMAIN f \/ Cardinality(Valid(g[x])) < 2)
   /\ LET b == Reverse(FillLine(Reverse(g[x]))) IN \A i \in DOMAIN f : b[i] = f[i] \/ Near(b[i], f[i], 1)
   /\ FillLine(f) = f
   /\ \A i \in DOMAIN f : (\E a \in Valid(g[x]), b \in Valid(g[x]) : a < i /\ i < b) =>
        SetMin({g[x][k] : k \in Valid(g[x])}) <= f[i] /\ f[i] <= SetMax({g[x][k] : k \in Valid(g[x])})
MatrixKeeps == Done => LET f == FillMatrix(g) IN
   /\ \A c \in Defined(g) : f[c[1]][c[2]] = g[c[1]][c[2]]
   /\ ~HasGap(g) => f = g
=============================================================================
