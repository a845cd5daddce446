-------------------------------- MODULE AxisFns --------------------------------
(***************************************************************************)
(* Coordinate axes of pyinterp: a strictly monotonic sequence of node      *)
(* values (in integer units), optionally an angle of period C, which is a  *)
(* circle when the nodes go all the way round.                             *)
(*                                                                         *)
(* Everything observable about an axis is a function of this abstract      *)
(* value: nearest-node lookup, bracketing, windows, flip, slices, pickling *)
(* and equality.  Several objects live in slots, so that aliasing between  *)
(* an axis and its copies is part of the state machine.                    *)
(***************************************************************************)
EXTENDS Num, Sequences, FiniteSets

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
NaN == 2000000000            \* a coordinate which is not a number

NoAxis == [v |-> <<>>, C |-> 0, circ |-> FALSE]

Monotone(v) == \/ \A i \in 1..(Len(v) - 1) : v[i] < v[i + 1]
               \/ \A i \in 1..(Len(v) - 1) : v[i] > v[i + 1]
Evenly(v) == /\ Len(v) >= 2
             /\ \A i \in 1..(Len(v) - 1) : v[i + 1] - v[i] = v[2] - v[1]

(* Longitudes given with one wrap (e.g. 0..180,-179..-1) are unrolled: once *)
(* the direction breaks, every later node is shifted by one period.        *)
Unroll(v, C) ==
  LET up == Len(v) < 2 \/ v[1] < v[2]
      breaks == {i \in 2..Len(v) : IF up THEN v[i - 1] > v[i]
                                         ELSE v[i - 1] < v[i]}
  IN [i \in 1..Len(v) |->
        IF \E b \in breaks : b <= i THEN v[i] + (IF up THEN C ELSE -C)
                                    ELSE v[i]]

Ascending(v) == Len(v) < 2 \/ v[1] < v[2]
Lo(v) == IF Ascending(v) THEN v[1] ELSE v[Len(v)]
Hi(v) == IF Ascending(v) THEN v[Len(v)] ELSE v[1]
LoIx(v) == IF Ascending(v) THEN 1 ELSE Len(v)
HiIx(v) == IF Ascending(v) THEN Len(v) ELSE 1

(* Does an angular axis go round the whole circle?  Regular: n steps make  *)
(* one period.  Irregular: the missing arc is not larger than the mean     *)
(* spacing.                                                                *)
IsCircle(v, C) ==
  /\ C > 0 /\ Len(v) >= 2
  /\ IF Evenly(v) THEN Abs(v[2] - v[1]) * Len(v) = C
     ELSE Abs((Hi(v) - Lo(v)) - C) * (Len(v) - 1) <= Hi(v) - Lo(v)

MakeAxis(raw, C) ==
  LET v == IF C > 0 /\ ~Monotone(raw) THEN Unroll(raw, C) ELSE raw
  IN [v |-> v, C |-> C, circ |-> IsCircle(v, C)]
Constructible(raw, C) ==
  /\ Len(raw) >= 1
  /\ LET v == IF C > 0 /\ ~Monotone(raw) THEN Unroll(raw, C) ELSE raw
     IN Monotone(v)

-----------------------------------------------------------------------------
(* Lookup.  Indices are 0-based as the library returns them; -1 = outside. *)

Norm(a, x) == IF a.C > 0 /\ Len(a.v) > 0
                /\ (x >= Lo(a.v) + a.C \/ x < Lo(a.v))
              THEN Lo(a.v) + ((x - Lo(a.v)) % a.C) ELSE x

Closest(v, d(_)) ==
  {i - 1 : i \in {j \in 1..Len(v) : \A k \in 1..Len(v) : d(j) <= d(k)}}

LinearNearest(v, x) == LET d(i) == Abs(v[i] - x) IN Closest(v, d)
CircularNearest(v, x, C) ==
  LET d(i) == LET e == (x - v[i]) % C IN IF e < C - e THEN e ELSE C - e
  IN Closest(v, d)

(* The set of indices find_index may return (more than one only on ties).  *)
FindIndex(a, x0, bounded) ==
  IF x0 = NaN THEN {-1} ELSE
  LET v == a.v
      x == Norm(a, x0)
      below == Lo(v) - x
      above == x - Hi(v)
      out == IF below > 0 THEN below ELSE above       \* distance outside
      end == IF below > 0 THEN LoIx(v) - 1 ELSE HiIx(v) - 1
      half == Abs(v[2] - v[1])                        \* twice half a cell
  IN IF a.circ THEN CircularNearest(v, x, a.C)
     ELSE IF out <= 0 THEN LinearNearest(v, x)
     ELSE IF bounded THEN {end}
     ELSE IF Evenly(v) /\ 2 * out < half THEN {end}
     ELSE IF Evenly(v) /\ 2 * out = half THEN {end, -1}
     ELSE {-1}

(* Bracketing pairs: the first index holds the lower value, the second the *)
(* upper one; on a node any pair of neighbours holding it will do.  Between *)
(* the two ends of a descending circle the library's order is not settled  *)
(* (its tests pin the reverse one), so both are accepted.                  *)
Neighbours(a) ==
  LET n == Len(a.v)
  IN {<<i, i + 1>> : i \in 1..(n - 1)} \cup
     (IF a.circ THEN {<<n, 1>>} ELSE {})
FindIndexes(a, x0) ==
  IF x0 = NaN THEN {<<-1, -1>>} ELSE
  LET v == a.v
      n == Len(v)
      x == Norm(a, x0)
      node == {i \in 1..n : v[i] = x}
      lower(p) == IF v[p[1]] < v[p[2]] THEN p ELSE <<p[2], p[1]>>
  IN IF n < 2 THEN {<<-1, -1>>}
     ELSE IF node # {} THEN
       {<<p[1] - 1, p[2] - 1>> :
          p \in UNION {{q, <<q[2], q[1]>>} :
                  q \in {r \in Neighbours(a) : r[1] \in node \/ r[2] \in node}}}
     ELSE IF x > Lo(v) /\ x < Hi(v) THEN
       {LET l == lower(<<i, i + 1>>) IN <<l[1] - 1, l[2] - 1>> :
           i \in {j \in 1..(n - 1) : /\ v[lower(<<j, j + 1>>)[1]] < x
                                     /\ x < v[lower(<<j, j + 1>>)[2]]}}
     ELSE IF a.circ THEN
       {<<HiIx(v) - 1, LoIx(v) - 1>>} \cup
       (IF Ascending(v) THEN {} ELSE {<<LoIx(v) - 1, HiIx(v) - 1>>})
     ELSE {<<-1, -1>>}

-----------------------------------------------------------------------------
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

(* Position of x between two neighbouring nodes (1-based indices i, j),     *)
(* going round a circle: weight num/den on node hi, the rest on node lo.    *)
Cell(a, i, j, x0) ==
  LET x == Norm(a, x0)
      mk(lo, hi, num, den) == LET g == Gcd(num, den) IN
        [lo |-> lo, hi |-> hi, num |-> num \div g, den |-> den \div g]
  IN IF a.circ
     THEN LET f(p, q) == mk(p, q, (x - a.v[p]) % a.C, (a.v[q] - a.v[p]) % a.C)
              g == f(i, j)
          IN IF g.num <= g.den THEN g ELSE f(j, i)
     ELSE IF a.v[i] < a.v[j] THEN mk(i, j, x - a.v[i], a.v[j] - a.v[i])
     ELSE mk(j, i, x - a.v[j], a.v[i] - a.v[j])

\* the cells a position belongs to; empty outside the axis
Cells(a, x) == {Cell(a, p[1] + 1, p[2] + 1, x) :
                  p \in {q \in FindIndexes(a, x) : q # <<-1, -1>>}}

-----------------------------------------------------------------------------
(* Windows: `size` indices on each side of the bracketing pair, in the     *)
(* order of the axis; what lies outside depends on the boundary mode.      *)

Fold(k, n, mode) ==          \* 0-based position k outside 0..n-1; -1 = undefined
  CASE mode = "expand" -> IF k < 0 THEN 0 ELSE n - 1
    [] mode = "wrap"   -> k % n
    [] mode = "sym"    -> LET p == k % (2 * (n - 1))
                          IN IF n = 1 THEN 0
                             ELSE IF p < n THEN p ELSE 2 * (n - 1) - p
    [] OTHER           -> -1

At(a, k, mode) ==
  LET n == Len(a.v)
  IN IF k \in 0..(n - 1) THEN k
     ELSE IF a.circ THEN k % n ELSE Fold(k, n, mode)

Window(a, p, size, mode) ==  \* p: 0-based bracketing pair, ascending axis
  LET idx == [j \in 1..(2 * size) |->
                 IF j <= size THEN At(a, p[1] - (size - j), mode)
                              ELSE At(a, p[2] + (j - size - 1), mode)]
  IN IF \E j \in 1..(2 * size) : idx[j] = -1 THEN <<>> ELSE idx

(* All the windows acceptable for a coordinate.                            *)
Windows(a, x, size, mode) ==
  {IF p = <<-1, -1>> THEN <<>> ELSE Window(a, p, size, mode) :
      p \in FindIndexes(a, x)}

-----------------------------------------------------------------------------
Flip(a) == [a EXCEPT !.v = Rev(a.v)]
SameAxis(a, b) == a.v = b.v /\ a.circ = b.circ

(* numpy slice of the values *)
Slice(a, start, count, step) ==
  [i \in 1..count |-> a.v[start + 1 + (i - 1) * step]]

=============================================================================
