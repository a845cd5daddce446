----------------------------- MODULE Hist2DTrace ----------------------------
EXTENDS Hist2D, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, obj
vars == <<l, obj>>
Set(s, o) == [k \in DOMAIN obj \cup {s} |-> IF k = s THEN o ELSE obj[k]]
New(e) == Fresh(MakeAxis(e.x, e.C), MakeAxis(e.y, e.D), e.single, e.cap)
Step(e) ==
  \/ e.op = "new" /\ obj' = Set(e.s, New(e))
  \/ e.op = "push" /\ obj' = Set(e.s, Push(obj[e.s], e.p))
  \/ e.op = "clear" /\ obj' = Set(e.s, Clear(obj[e.s]))
  \/ e.op \in {"copy", "pickle"} /\ obj' = Set(e.t, obj[e.s])
  \/ e.op = "lazy" /\ obj' = Set(e.s,
        FoldLeft(LAMBDA o, b : Combine(o, Push(Clear(obj[e.s]), b)),
                 Push(Clear(obj[e.s]), Head(e.blocks)), Tail(e.blocks)))
  \/ e.op = "iadd" /\ IF Compatible(obj[e.s], obj[e.t])
                      THEN e.r = "ok" /\ obj' = Set(e.s, Combine(obj[e.s], obj[e.t]))
                      ELSE e.r # "ok" /\ UNCHANGED obj
  \/ e.op = "add" /\ IF Compatible(obj[e.s], obj[e.t])
                     THEN e.r = "ok" /\ obj' = Set(e.d, Combine(obj[e.s], obj[e.t]))
                     ELSE e.r # "ok" /\ UNCHANGED obj
  \/ e.op = "read"
     /\ LET o == obj[e.s] IN
        /\ e.r.shape = <<Len(o.x.v), Len(o.y.v)>> /\ Len(e.r.cells) = Len(o.cells)
        /\ e.r.x = o.x.v /\ e.r.y = o.y.v
        /\ (\A k \in DOMAIN o.cells : H!OkHist(e.r.cells[k], o.cells[k], o.single)) = TRUE
        /\ obj' = Set(e.s, [o EXCEPT !.cells =
              [k \in DOMAIN @ |-> H!Narrow(@[k], e.r.cells[k])]])
  \/ e.op = "refused" /\ UNCHANGED obj /\ e.r
Init == l = 1 /\ obj = <<>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
