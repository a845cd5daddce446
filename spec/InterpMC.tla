------------------------------- MODULE InterpMC -----------------------------
(* Every grid of a small domain, walked over by the position.              *)
EXTENDS Interp, TLC
CONSTANT Values
VARIABLES g, p
vars == <<g, p>>
XAxes == {MakeAxis(<<0, 240, 600>>, 0), MakeAxis(<<0, 360, 1080>>, 1440),
          MakeAxis(<<0, 720>>, 1440), MakeAxis(<<960, 480, 0>>, 1440)}
YAxes == {MakeAxis(<<-40, 80>>, 0), MakeAxis(<<80, 0>>, 0)}
Steps == {x * 120 : x \in -3..15}
Init == /\ \E x \in XAxes, y \in YAxes :
             \E q \in [1..Len(x.v) -> [1..2 -> Values]] :
               /\ q[1][1] = 0 \/ q[1][1] = Undef
               /\ g = [x |-> x, y |-> y, z |-> <<>>, u |-> <<>>,
                       q |-> <<<<q>>>>]
        /\ p = <<-360, -40, 0, 0>>
Next == /\ \/ p[1] < 1800 /\ p' = [p EXCEPT ![1] = @ + 120]
           \/ p[2] < 120 /\ p[1] = 1800 /\ p' = [p EXCEPT ![1] = -360, ![2] = @ + 40]
        /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
M == {<<"bilinear", 0>>, <<"nearest", 0>>, <<"idw", 2>>}
Out(h, m) == Outcomes(h, p, m, "linear", "linear")
Q == g.q[1][1]
Vals == {Q[i][j] : i \in DOMAIN Q, j \in 1..2}
NodeX(i) == (p[1] - g.x.v[i]) % (IF g.x.C > 0 THEN g.x.C ELSE 100000) = 0
Meaning == \A m \in M :
  LET O == Out(g, m) IN
  /\ O # {}
  \* exact on nodes
  /\ \A i \in DOMAIN Q, j \in 1..2 :
       NodeX(i) /\ p[2] = g.y.v[j] /\ Undef \notin Vals =>
         O = {[v |-> Q[i][j] * S, tol |-> o.tol] : o \in O}
  \* within the range of the nodes, whatever the cell
  /\ \A o \in O : o # NoValue =>
       /\ o.v + o.tol >= SetMin(Vals \ {Undef}) * S
       /\ o.v - o.tol <= SetMax(Vals \ {Undef}) * S
  \* undefined outside, defined inside when nothing is undefined
  /\ ~Inside(g, p) => O = {NoValue}
  /\ Inside(g, p) /\ Undef \notin Vals => NoValue \notin O
  \* one value on the borders of cells (bilinear)
  /\ m[1] = "bilinear" /\ Undef \notin Vals =>
       \A a, b \in O : Abs(a.v - b.v) <= a.tol + b.tol
  \* flips change nothing, a period more changes nothing
  /\ Out(FlipX(g), m) = O /\ Out(FlipY(g), m) = O
  /\ g.x.circ => Outcomes(g, [p EXCEPT ![1] = @ + 1440], m, "linear", "linear") = O
  \* in three dimensions: equal levels change nothing, nodes are exact
  /\ LET g3 == [g EXCEPT !.z = <<0, 10, 30>>, !.q = <<g.q[1], g.q[1], g.q[1]>>]
         O3 == Outcomes(g3, [p EXCEPT ![3] = 20], m, "nearest", "linear")
     IN O3 = O /\ Outcomes(FlipZ(g3), [p EXCEPT ![3] = 25], m, "nearest", "linear") = O
CircleIsInside == g.x.circ /\ p[2] \in Lo(g.y.v)..Hi(g.y.v) => Inside(g, p)
=============================================================================
