------------------------------ MODULE AxisMC --------------------------------
(* Exhaustive check of the axis specification on small axes.               *)
EXTENDS Axis, TLC, Json
CONSTANTS MaxV, MaxN, Period, Slots

SeqsUpTo(n) == UNION {[1..k -> 0..MaxV] : k \in 1..n}
MCInit == Init(1..Slots)
MCNew(s) == \E v \in SeqsUpTo(MaxN), C \in {0, Period} : New(s, v, C)
Next == \E s \in 1..Slots :
           \/ objs[s] = NoAxis /\ MCNew(s)
           \/ FlipInPlace(s)
           \/ \E t \in 1..Slots : s # t /\ (FlipCopy(s, t) \/ Duplicate(s, t))
Spec == MCInit /\ [][Next]_objs

Q == (-Period)..(2 * Period + MaxV)
Axes == {objs[s] : s \in 1..Slots} \ {NoAxis}

WellFormed == \A a \in Axes : Monotone(a.v) /\ (a.circ => a.C > 0)
FlipInvolutive == \A a \in Axes : Flip(Flip(a)) = a
\* the abstract meaning of a lookup does not depend on the direction
FlipLookup == \A a \in Axes : \A x \in Q : \A b \in BOOLEAN :
  FindIndex(Flip(a), x, b) =
     {IF i = -1 THEN -1 ELSE Len(a.v) - 1 - i : i \in FindIndex(a, x, b)}
Unordered(S) == {{p[1], p[2]} : p \in S}
FlipBracket == \A a \in Axes : \A x \in Q :
  Unordered(FindIndexes(Flip(a), x)) = Unordered(
     {IF p = <<-1, -1>> THEN p ELSE <<Len(a.v) - 1 - p[1], Len(a.v) - 1 - p[2]>> :
        p \in FindIndexes(a, x)})
Total == \A a \in Axes : \A x \in Q :
  /\ FindIndex(a, x, FALSE) # {} /\ FindIndex(a, x, TRUE) # {}
  /\ FindIndexes(a, x) # {}
  /\ -1 \notin FindIndex(a, x, TRUE)
\* the nearest node is one of the bracketing nodes
NearestInBracket == \A a \in Axes : \A x \in Q : \A p \in FindIndexes(a, x) :
  p # <<-1, -1>> =>
     \A i \in FindIndex(a, x, TRUE) : LET k == {p[1], p[2]} IN
        i \in k \/ a.circ
\* a circle has no outside
CircleTotal == \A a \in Axes : a.circ =>
  \A x \in Q : /\ -1 \notin FindIndex(a, x, FALSE)
               /\ <<-1, -1>> \notin FindIndexes(a, x)
Periodic == \A a \in Axes : a.C > 0 => \A x \in 0..(Period - 1) :
  /\ FindIndex(a, x, FALSE) = FindIndex(a, x + Period, FALSE)
  /\ FindIndexes(a, x) = FindIndexes(a, x - Period)
\* windows contain the bracketing pair in the middle, and only real nodes
WindowSound == \A a \in Axes : \A x \in 0..MaxV : \A m \in {"expand", "wrap", "sym", "undef"} :
  \A size \in 1..3 : \A p \in FindIndexes(a, x) : p # <<-1, -1>> =>
    LET w == Window(a, p, size, m) IN
      w = <<>> \/ ( /\ w[size] = p[1] /\ w[size + 1] = p[2]
                    /\ \A j \in 1..(2 * size) : w[j] \in 0..(Len(a.v) - 1)
                    /\ (m = "undef" /\ ~a.circ) =>
                         \A j \in 1..(2 * size) : j = size \/ j = 2 * size \/ Abs(w[j + 1] - w[j]) = 1)
=============================================================================
