----------------------------- MODULE StatsTrace -----------------------------
EXTENDS Stats, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, obj
vars == <<l, obj>>
Set(s, o) == [k \in DOMAIN obj \cup {s} |-> IF k = s THEN o ELSE obj[k]]
Fits(s, t) == obj[s].shape = obj[t].shape /\ obj[s].single = obj[t].single
Sum(s, t) == [obj[s] EXCEPT !.cells = Merge(@, obj[t].cells)]
SetOf(q) == {q[k] : k \in DOMAIN q}
ToStats(e) ==
  IF e.flat THEN [shape |-> <<1>>, single |-> e.single, cells |-> Whole(e.v, e.w)]
  ELSE [shape |-> ReducedShape(e.shape, SetOf(e.ax)), single |-> e.single,
        cells |-> Table(e.shape, SetOf(e.ax), e.v, e.w)]
ValidNew(e) ==
  /\ e.flat \/ \A a \in SetOf(e.ax) : a \in 0..Len(e.shape) - 1
  /\ e.w = <<>> \/ e.wshape = e.shape
Step(e) ==
  \/ e.op = "new" /\ IF ValidNew(e) THEN e.r = "ok" /\ obj' = Set(e.s, ToStats(e))
                     ELSE e.r = "ValueError" /\ UNCHANGED obj
  \/ e.op \in {"copy", "pickle"} /\ obj' = Set(e.t, obj[e.s])
  \/ e.op = "iadd" /\ IF Fits(e.s, e.t) THEN e.r = "ok" /\ obj' = Set(e.s, Sum(e.s, e.t))
                      ELSE e.r # "ok" /\ UNCHANGED obj
  \/ e.op = "add" /\ IF Fits(e.s, e.t) THEN e.r = "ok" /\ obj' = Set(e.d, Sum(e.s, e.t))
                     ELSE e.r # "ok" /\ UNCHANGED obj
  \/ e.op = "read" /\ UNCHANGED obj /\ e.r.shape = obj[e.s].shape
     /\ LET c == obj[e.s].cells IN Len(e.r.cells) = Len(c)
        /\ (\A k \in 1..Len(c) : OkCell(e.r.cells[k], c[k], obj[e.s].single)) = TRUE
  \/ e.op = "high" /\ UNCHANGED obj
     /\ LET c == obj[e.s].cells IN Len(e.r) = Len(c)
        /\ (\A k \in 1..Len(c) : OkHigh(e.r[k], c[k])) = TRUE
  \/ e.op = "reset" /\ obj' = <<>>
  \/ e.op = "refused" /\ UNCHANGED obj /\ e.r
Init == l = 1 /\ obj = <<>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
