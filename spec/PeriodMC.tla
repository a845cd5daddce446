------------------------------ MODULE PeriodMC ------------------------------
EXTENDS Period, TLC
CONSTANTS MaxT, MaxN
S == {1, 2}
Pers == {p \in [b : 0..MaxT, l : 0..MaxT] : p.b <= p.l}
Lists == {s \in UNION {[1..n -> Pers] : n \in 0..MaxN} : SortedDisjoint(s)}
MCInit == Init(S)
Next == \/ \E s \in S, v \in Lists : lists[s] = <<>> /\ New(s, v)
        \/ \E s, t \in S : DoMerge(s, t)
        \/ \E s, t \in S, e \in 0..2 : DoJoin(s, t, e)
        \/ \E s, t \in S, w \in Pers : DoWithin(s, t, w) \/ DoClip(s, t, w)
        \/ \E s, t \in S, d \in 1..2 : DoFilter(s, t, d)
Spec == MCInit /\ [][Next]_lists
AlwaysSorted == \A s \in S : SortedDisjoint(lists[s])
                             /\ \A i \in 1..Len(lists[s]) : ~IsNull(lists[s][i])
Meaning ==
  LET a == lists[1]  b == lists[2] IN
  /\ Points(MergeLists(a, b)) = Points(a) \cup Points(b)
  /\ MergeLists(a, b) = MergeLists(b, a)
  /\ MergeLists(a, a) = a
  /\ \A e \in 0..2 :
       /\ Points(a) \subseteq Points(Join(a, e))
       /\ \A x \in Points(Join(a, e)) \ Points(a) :
            \E y, z \in Points(a) : y < x /\ x < z /\ z - y <= e
       /\ Join(Join(a, e), e) = Join(a, e)
  /\ \A w \in Pers :
       /\ Points(Clip(a, w)) = Points(a) \cap Steps(w)
       /\ Range(Within(a, w)) = {p \in Range(a) : Steps(p) \cap Steps(w) # {}}
       /\ Points(Clip(Within(a, w), w)) = Points(Clip(a, w))
  /\ \A x \in 0..MaxT : Belongs(a, x) = (x \in Points(a))
  /\ \A x \in 0..MaxT : \A y \in x..MaxT :
       Crosses(a, x, y) = (\E z \in x..y : z \in Points(a))
PairMeaning == \A p, q \in Pers :
  /\ Intersects(p, q) = (Steps(p) \cap Steps(q) # {})
  /\ ContainsP(p, q) = (Steps(q) \subseteq Steps(p))
  /\ Steps(Intersection(p, q)) = Steps(p) \cap Steps(q)
  /\ Intersects(p, q) => Steps(Merge(p, q)) = Steps(p) \cup Steps(q)
  /\ Adjacent(p, q) => ~Intersects(p, q)
  /\ Length(p) = Cardinality(Steps(p))
=============================================================================
