-------------------------------- MODULE Grid --------------------------------
(* A grid is a sequence of axes and the values of their nodes, the last axis *)
(* varying fastest.  What it means is a function of coordinates.             *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Lens(axes) == [k \in DOMAIN axes |-> Len(axes[k])]
\* position of the node of indexes ix (from 1) among n1 x n2 ... nodes
RECURSIVE Rank(_, _)
Rank(ix, n) == IF ix = <<>> THEN 1
               ELSE LET m == Len(ix) IN
                    (Rank(SubSeq(ix, 1, m - 1), SubSeq(n, 1, m - 1)) - 1) * n[m] + ix[m]
\* the indexes of the node at a position
Place(r, n) == [k \in DOMAIN n |->
  (((r - 1) \div Prod(SubSeq(n, k + 1, Len(n)))) % n[k]) + 1]
Nodes(n) == [k \in 1..Prod(n) |-> Place(k, n)]
Coordinates(axes, ix) == [k \in DOMAIN axes |-> axes[k][ix[k]]]
\* the meaning of a grid
Meaning(g) == {<<Coordinates(g.axes, Place(r, Lens(g.axes))), g.data[r]>> :
                 r \in DOMAIN g.data}
WellFormed(g) == Len(g.data) = Prod(Lens(g.axes))
\* transformations ----------------------------------------------------------
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Ascending(a) == Len(a) < 2 \/ a[1] < a[Len(a)]
Rebuild(g, axes, src(_)) ==
  LET n == Lens(axes) IN
  [axes |-> axes, data |-> [r \in DOMAIN g.data |->
     g.data[Rank(src(Place(r, n)), Lens(g.axes))]]]
Flip(g, D) ==
  LET From(ix) == [k \in DOMAIN ix |-> IF k \in D THEN Len(g.axes[k]) + 1 - ix[k] ELSE ix[k]]
  IN Rebuild(g, [k \in DOMAIN g.axes |-> IF k \in D THEN Reverse(g.axes[k]) ELSE g.axes[k]], From)
Falling(g) == {k \in DOMAIN g.axes : ~Ascending(g.axes[k])}
Increase(g) == Flip(g, Falling(g))
\* axis k of the result is the axis p[k] of the grid
Transpose(g, p) ==
  LET From(ix) == [k \in DOMAIN ix |-> ix[CHOOSE j \in DOMAIN p : p[j] = k]]
  IN Rebuild(g, [k \in DOMAIN p |-> g.axes[p[k]]], From)
At(g, c) == g.data[Rank([k \in DOMAIN c |-> CHOOSE i \in DOMAIN g.axes[k] : g.axes[k][i] = c[k]],
                        Lens(g.axes))]
\* dispatch -------------------------------------------------------------------
Suffix == [float64 |-> "Float64", int64 |-> "Float64", uint64 |-> "Float64",
           float32 |-> "Float32", int32 |-> "Float32", uint32 |-> "Float32",
           int16 |-> "Float32", uint16 |-> "Float32", int8 |-> "Int8", uint8 |-> "UInt8"]
Dim == <<"", "2D", "3D", "4D">>
Class(kinds, dtype) ==
  (IF \E k \in DOMAIN kinds : kinds[k] = "time" THEN "TemporalGrid" ELSE "Grid")
  \o Dim[Len(kinds)] \o Suffix[dtype]
\* what can be a grid: kinds and circles of the axes, shape of the values
Acceptable(n, kinds, circles, lens, shape, dtype) ==
  /\ Len(kinds) = n /\ shape = lens /\ dtype \in DOMAIN Suffix
  /\ \A k \in DOMAIN kinds : kinds[k] = "time" => k = 3
  /\ \A k \in DOMAIN circles : circles[k] => k = 1
=============================================================================
