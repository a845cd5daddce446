------------------------------ MODULE CurveMC -------------------------------
(* Theorems about the curves, checked on every small set of points.         *)
EXTENDS Curve, TLC
CONSTANTS MaxN, Steps, Vals, Lins
VARIABLES kind, xs, ys
vars == <<kind, xs, ys>>
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
Init == kind \in Kinds /\ xs = <<>> /\ ys = <<>>
Next == xs = <<>> /\ UNCHANGED kind /\
        \E n \in MinSize(kind)..Max2(MaxN, MinSize(kind)) : \E st \in [1..(n - 1) -> Steps], v \in [2..n -> Vals] :
          /\ xs' = [i \in 1..n |-> Sum(st, i - 1)]
          /\ ys' = [i \in 1..n |-> IF i = 1 THEN 0 ELSE v[i]]
Spec == Init /\ [][Next]_vars
n == Len(xs)
sl == Slopes(kind, xs, ys)
V(q) == At(kind, xs, ys, sl, q)[1]
Tol == IF kind = "polynomial" THEN 20 ELSE 4
Range == 0..(8 * xs[n])
Some == {q \in Range : q % 4 = 0}
Through == \A i \in 1..n : Near(V(8 * xs[i]), U * ys[i], 1)
Undefined == V(-1) = Undef /\ V(8 * xs[n] + 1) = Undef
Between == kind \in {"linear", "steffen"} =>
  \A q \in Range : LET i == Interval(xs, q) IN
     /\ V(q) >= U * Min2(ys[i], ys[i + 1]) - 2
     /\ V(q) <= U * Max2(ys[i], ys[i + 1]) + 2
Monotone == kind \in {"linear", "steffen"} =>
  \A q \in Range \ {0} : LET i == Interval(xs, q) IN
     (V(q) - V(q - 1)) * Sgn(ys[i + 1] - ys[i]) >= -4
Linear == (\A i \in 1..n : ys[i] = 0) => \A a, b \in Lins :
  LET l == [i \in 1..n |-> a * xs[i] + b]
      s == Slopes(kind, xs, l)
  IN \A q \in Some : Near(At(kind, xs, l, s, q)[1], Scaled(U * a, 8, q) + U * b, Tol)
\* second derivative on each side of a point
Left2(i) == Rdiv(2 * sl[i - 1] + 4 * sl[i] - 6 * M(xs, ys, i - 1), Step(xs, i - 1))
Right2(i) == Rdiv(6 * M(xs, ys, i) - 4 * sl[i] - 2 * sl[i + 1], Step(xs, i))
Smooth ==
  /\ kind \in {"c_spline", "c_spline_periodic"} => \A i \in 2..(n - 1) : Near(Left2(i), Right2(i), 40)
  /\ kind = "c_spline" => Near(Left2(n), 0, 40) /\ Near(Right2(1), 0, 40)
  /\ kind = "c_spline_periodic" => sl[1] = sl[n] /\ Near(Left2(n), Right2(1), 40)
  /\ kind = "akima_periodic" => sl[1] = sl[n]
Flip(s) == [i \in 1..n |-> s[n + 1 - i]]
Mirror == LET rx == [i \in 1..n |-> xs[n] - xs[n + 1 - i]]
              ry == Flip(ys)
              rs == Slopes(kind, rx, ry)
          IN \A q \in Some : Near(V(q), At(kind, rx, ry, rs, 8 * xs[n] - q)[1], Tol)
\* a closed curve may be cut anywhere
Rotate == kind \in {"c_spline_periodic", "akima_periodic"} /\ ys[1] = ys[n] /\ n > 2 =>
  LET rx == [i \in 1..n |-> IF i < n THEN xs[i + 1] - xs[2] ELSE xs[n]]
      ry == [i \in 1..n |-> IF i < n THEN ys[i + 1] ELSE ys[2]]
      rs == Slopes(kind, rx, ry)
  IN \A q \in {q \in Some : q >= 8 * xs[2]} : Near(V(q), At(kind, rx, ry, rs, q - 8 * xs[2])[1], 6)
\* the differences of order n of a polynomial of degree n - 1 vanish
RECURSIVE Diff(_, _, _)
Diff(q, k, w) == IF k = 0 THEN V(q) ELSE Diff(q + w, k - 1, w) - Diff(q, k - 1, w)
Degree == kind = "polynomial" => \A q \in {q \in Range : q + 4 * n \in Range /\ q % 4 = 0} :
            Near(Diff(q, n, 4), 0, 10 * (2 ^ n))
\* a window is enough for the local methods
Local == \A q \in Some :
  /\ kind = "linear" => Near(WindowAt(kind, xs, ys, 1, q), V(q), 1)
  /\ kind = "steffen" => Near(WindowAt(kind, xs, ys, 2, q), V(q), 1)
  /\ (kind = "akima" /\ n <= 5) => Near(WindowAt(kind, xs, ys, 4, q), V(q), 1)
  /\ ~ (Enough(kind, xs, q, n) /\ ~Near(WindowAt(kind, xs, ys, n, q), V(q), 0))
Inv == xs = <<>> \/
       /\ Through /\ Undefined /\ Between /\ Monotone /\ Linear /\ Smooth
       /\ Mirror /\ Rotate /\ Degree /\ Local
=============================================================================
