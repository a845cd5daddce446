------------------------------ MODULE Period --------------------------------
(* Closed discrete periods [b, l] and sorted lists of disjoint periods.     *)
(* A list denotes the union of its periods, as a set of time steps.         *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE lists                    \* slot -> sequence of periods

Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

Steps(p) == p.b .. p.l            \* meaning of a period
Length(p) == p.l - p.b + 1
IsNull(p) == p.l < p.b
Contains(p, x) == p.b <= x /\ x <= p.l
ContainsP(p, q) == p.b <= q.b /\ q.l <= p.l
Before(p, x) == ~IsNull(p) /\ p.l < x        \* period entirely before x
After(p, x) == ~IsNull(p) /\ x < p.b
Adjacent(p, q) == q.b = p.l + 1 \/ p.b = q.l + 1
Intersects(p, q) == Max2(p.b, q.b) <= Min2(p.l, q.l)
Close(p, x, tol) == p.b - tol <= x /\ x <= p.l + tol
Intersection(p, q) == [b |-> Max2(p.b, q.b), l |-> Min2(p.l, q.l)]
Merge(p, q) == IF Intersects(p, q)
               THEN [b |-> Min2(p.b, q.b), l |-> Max2(p.l, q.l)]
               ELSE [b |-> p.b, l |-> p.b - 1]              \* null

-----------------------------------------------------------------------------
Range(s) == {s[i] : i \in 1..Len(s)}
Points(s) == UNION {Steps(p) : p \in Range(s)}
SortedDisjoint(s) == \A i \in 1..(Len(s) - 1) : s[i].l < s[i + 1].b

RECURSIVE SortByBegin(_)
SortByBegin(S) ==                 \* S: finite set of periods
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE p \in S : \A q \in S :
                   p.b < q.b \/ (p.b = q.b /\ p.l <= q.l)
       IN <<m>> \o SortByBegin(S \ {m})

\* union of two lists: overlapping periods are coalesced, adjacent ones kept
RECURSIVE Coalesce(_, _)
Coalesce(acc, s) ==
  IF s = <<>> THEN acc
  ELSE LET p == Head(s) IN
    IF acc # <<>> /\ Intersects(acc[Len(acc)], p)
    THEN Coalesce([acc EXCEPT ![Len(acc)].l = Max2(@, p.l)], Tail(s))
    ELSE Coalesce(Append(acc, p), Tail(s))
MergeLists(s, t) == Coalesce(<<>>, SortByBegin(Range(s) \cup Range(t)))

RECURSIVE JoinFrom(_, _, _)
JoinFrom(acc, s, eps) ==
  IF s = <<>> THEN acc
  ELSE LET p == Head(s) IN
    IF acc # <<>> /\ p.b - acc[Len(acc)].l <= eps
    THEN JoinFrom([acc EXCEPT ![Len(acc)].l = p.l], Tail(s), eps)
    ELSE JoinFrom(Append(acc, p), Tail(s), eps)
Join(s, eps) == JoinFrom(<<>>, s, eps)

Select(s, T(_)) == SelectSeq(s, T)
Within(s, w) == LET T(p) == Intersects(p, w) IN SelectSeq(s, T)
Clip(s, w) == LET T(p) == ~IsNull(p)
              IN SelectSeq([i \in 1..Len(s) |-> Intersection(s[i], w)], T)
LongerThan(s, d) == LET T(p) == Length(p) >= d IN SelectSeq(s, T)

Belongs(s, x) == \E i \in 1..Len(s) : Contains(s[i], x)
IsClose(s, x, eps) == \E i \in 1..Len(s) : Close(s[i], x, eps)
\* the time from date x to the last date meets a period
Crosses(s, x, last) ==
  \E i \in 1..Len(s) : Intersects(s[i], [b |-> x, l |-> last])

-----------------------------------------------------------------------------
Init(S) == lists = [s \in S |-> <<>>]
Set(t, v) == lists' = [lists EXCEPT ![t] = v]
New(t, v) == SortedDisjoint(v) /\ Set(t, v)
DoMerge(s, t) == Set(s, MergeLists(lists[s], lists[t]))   \* in place
DoJoin(s, t, eps) == Set(t, Join(lists[s], eps))
DoWithin(s, t, w) == Set(t, Within(lists[s], w))
DoClip(s, t, w) == Set(t, Clip(lists[s], w))
DoFilter(s, t, d) == Set(t, LongerThan(lists[s], d))
DoDup(s, t) == Set(t, lists[s])
=============================================================================
