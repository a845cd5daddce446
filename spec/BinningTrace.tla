---------------------------- MODULE BinningTrace ----------------------------
EXTENDS Binning, Trig, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, obj
vars == <<l, obj>>
Set(s, o) == [k \in DOMAIN obj \cup {s} |-> IF k = s THEN o ELSE obj[k]]
New(e) == LET x == MakeAxis(e.x, e.C) y == MakeAxis(e.y, e.D) IN
  [x |-> x, y |-> y, wgs |-> e.wgs, single |-> e.single, kind |-> e.kind,
   range |-> e.range, cells |-> Empty(x, y)]
Grid(o) == <<Len(o.x.v), Len(o.y.v)>>
\* geographic areas of the opposite rectangles, in 10000ths of the cell
GeoShares(o, x, y) ==
  LET cx == Pick(Cells(o.x, x)) cy == Pick(Cells(o.y, y))
      s(v) == Sin(v)
      ya == o.y.v[cy.lo] yb == o.y.v[cy.hi]
      fy == ((s(y) - s(ya)) * 1000) \div (s(yb) - s(ya))       \* of the upper node
      fx == (1000 * cx.num) \div cx.den
      w(a, b) == (a * b) \div 100
  IN {<<CellNo(o, cx.lo - 1, cy.lo - 1), w(1000 - fx, 1000 - fy)>>,
      <<CellNo(o, cx.lo - 1, cy.hi - 1), w(1000 - fx, fy)>>,
      <<CellNo(o, cx.hi - 1, cy.lo - 1), w(fx, 1000 - fy)>>,
      <<CellNo(o, cx.hi - 1, cy.hi - 1), w(fx, fy)>>}
OkGeo(o, e) ==
  IF Cells(o.x, e.p[1]) = {} \/ Cells(o.y, e.p[2]) = {} THEN \A k \in DOMAIN e.r : e.r[k] = 0
  ELSE LET sh == GeoShares(o, e.p[1], e.p[2]) IN
       \A k \in DOMAIN e.r :
         IF \E q \in sh : q[1] = k THEN Near(e.r[k], (CHOOSE q \in sh : q[1] = k)[2], 200)
         ELSE e.r[k] = 0
\* a sample in the same cell as p, at any distance of its nodes, counts in
\* every bin where p has a share
OkSliver(o, e) ==
  LET sh == {q[1] : q \in {q \in Shares(o, e.p[1], e.p[2]) : q[2] > 0}} IN
  \A k \in DOMAIN e.n : e.n[k] = (IF k \in sh THEN 1 ELSE 0)
Step(e) ==
  \/ e.op = "new" /\ obj' = Set(e.s, New(e))
  \/ e.op = "push" /\ obj' = Set(e.s, Push(obj[e.s], e.p, e.how))
  \/ e.op = "clear" /\ obj' = Set(e.s, Clear(obj[e.s]))
  \/ e.op \in {"copy", "pickle"} /\ obj' = Set(e.t, obj[e.s])
  \/ e.op = "lazy" /\ obj' = Set(e.t, Push(Clear(obj[e.s]), e.p, e.how))
  \/ e.op = "iadd" /\ IF Compatible(obj[e.s], obj[e.t])
                      THEN e.r = "ok" /\ obj' = Set(e.s, Combine(obj[e.s], obj[e.t]))
                      ELSE e.r # "ok" /\ UNCHANGED obj
  \/ e.op = "add" /\ IF Compatible(obj[e.s], obj[e.t])
                     THEN e.r = "ok" /\ obj' = Set(e.d, Combine(obj[e.s], obj[e.t]))
                     ELSE e.r # "ok" /\ UNCHANGED obj
  \/ e.op = "read" /\ UNCHANGED obj
     /\ LET o == obj[e.s] IN
        /\ e.r.shape = Grid(o) /\ Len(e.r.cells) = Len(o.cells)
        /\ e.r.x = o.x.v /\ e.r.y = o.y.v /\ e.r.wgs = o.wgs /\ e.r.range = o.range
        /\ (\A k \in DOMAIN o.cells : OkBin(e.r.cells[k], o.cells[k], o.single)) = TRUE
  \/ e.op = "geo" /\ UNCHANGED obj /\ OkGeo(obj[e.s], e)
  \/ e.op = "sliver" /\ UNCHANGED obj /\ OkSliver(obj[e.s], e)
  \/ e.op = "refused" /\ UNCHANGED obj /\ e.r
Init == l = 1 /\ obj = <<>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
