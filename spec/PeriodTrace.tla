----------------------------- MODULE PeriodTrace ----------------------------
EXTENDS Period, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<lists, l>>
Slots == 1..4
P(x) == [b |-> x[1], l |-> x[2]]
L(x) == [i \in 1..Len(x) |-> P(x[i])]
J(p) == <<p.b, p.l>>
NullOr(p, r) == IF IsNull(p) THEN r[2] < r[1] ELSE r = J(p)

Floor(x, k) == x \div k                   \* TLC rounds towards -infinity
FloorP(p, k) == [b |-> Floor(p.b, k), l |-> Floor(p.l, k)]

PairOk(p, q, r) ==
  /\ r.contains = ContainsP(p, q)
  /\ r.adjacent = Adjacent(p, q)
  /\ r.intersects = Intersects(p, q)
  /\ NullOr(Intersection(p, q), r.inter)
  /\ NullOr(Merge(p, q), r.merge)
  /\ r.eq = (p = q) /\ r.ne = (p # q)
  /\ r.lt = (p.b < q.b)
OneOk(p, r) ==
  /\ r.b = p.b /\ r.last = p.l /\ r.fin = p.l + 1
  /\ r.null = IsNull(p) /\ r.dur = Length(p) /\ r.len = Length(p)
PointOk(p, xs, r) == \A k \in 1..Len(xs) :
  r[k] = <<Contains(p, xs[k]), Before(p, xs[k]), After(p, xs[k])>>

Step(e) ==
  \/ e.op = "reset" /\ lists' = [s \in Slots |-> <<>>]
  \/ e.op = "one" /\ OneOk(P(e.p), e.r) /\ UNCHANGED lists
  \/ e.op = "pair" /\ PairOk(P(e.p), P(e.q), e.r) /\ UNCHANGED lists
  \* the second operand is k times finer: it is brought to the resolution
  \* of the first one
  \/ e.op = "pairfine" /\ UNCHANGED lists
     /\ LET p == P(e.p)  q == FloorP(P(e.q), e.k) IN
          /\ e.r.contains = ContainsP(p, q)
          /\ e.r.adjacent = Adjacent(p, q)
          /\ e.r.intersects = Intersects(p, q)
          /\ NullOr(Intersection(p, q), e.r.inter)
          /\ NullOr(Merge(p, q), e.r.merge)
  \/ e.op = "points" /\ UNCHANGED lists
     /\ PointOk(P(e.p), [i \in 1..Len(e.x) |-> Floor(e.x[i], e.k)], e.r)
  \/ e.op = "new" /\ e.r = SortedDisjoint(L(e.v)) /\ Set(e.s, L(e.v))
  \/ e.op = "merge" /\ DoMerge(e.s, e.t)
  \/ e.op = "join" /\ DoJoin(e.s, e.t, e.eps)
  \/ e.op = "within" /\ DoWithin(e.s, e.t, P(e.w))
  \/ e.op = "clip" /\ DoClip(e.s, e.t, P(e.w))
  \/ e.op = "filter" /\ DoFilter(e.s, e.t, e.d)
  \/ e.op = "pickle" /\ DoDup(e.s, e.t)
  \/ e.op = "sort" /\ Set(e.s, SortByBegin(Range(lists[e.s])))
  \/ e.op = "read" /\ e.r = [i \in 1..Len(lists[e.s]) |-> J(lists[e.s][i])]
     /\ UNCHANGED lists
  \/ e.op = "shape" /\ UNCHANGED lists
     /\ e.r.len = Len(lists[e.s]) /\ e.r.sorted = SortedDisjoint(lists[e.s])
     /\ e.r.dur = [i \in 1..Len(lists[e.s]) |-> Length(lists[e.s][i]) - 1]
  \/ e.op = "belong" /\ UNCHANGED lists /\ Len(e.r) = Len(e.x)
     /\ \A k \in 1..Len(e.x) : e.r[k] = Belongs(lists[e.s], e.x[k])
  \/ e.op = "cross" /\ UNCHANGED lists /\ Len(e.r) = Len(e.x)
     /\ \A k \in 1..Len(e.x) :
          e.r[k] = Crosses(lists[e.s], e.x[k], e.x[Len(e.x)])
  \/ e.op = "close" /\ UNCHANGED lists
     /\ \A k \in 1..Len(e.x) : e.r[k] = IsClose(lists[e.s], e.x[k], e.eps)

TraceInit == Init(Slots) /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
