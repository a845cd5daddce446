---------------------------- MODULE WindowedTrace -----------------------------
(* The recorded interpolations over windows are those of Windowed, call      *)
(* after call on a grid whose values may change in between.                  *)
EXTENDS Windowed, Json, IOUtils
LOCAL INSTANCE TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g
vars == <<l, g>>
Axis(e) == IF e.v = <<>> THEN <<>> ELSE A!MakeAxis(e.v, e.C)
Grid(e) == [ax |-> Axis(e.x), ay |-> Axis(e.y), az |-> Axis(e.z), au |-> Axis(e.u), data |-> e.data]
Matches(o, v) == (v = Undef /\ o.st \in {"out", "undef"}) \/ (v # Undef /\ o.st = "ok" /\ Near(v, o.v, o.t))
Raises(o, be) == o.st = "few" \/ (be /\ o.st = "out")
At(e) ==
  LET S(p) == Outcomes(g, e.kind, e.nx, e.ny, e.mode, e.x[p], e.y[p],
                       IF g.az = <<>> THEN 0 ELSE e.z[p], IF g.au = <<>> THEN 0 ELSE e.u[p])
  IN IF e.nx < 1 \/ e.ny < 1 THEN e.r.err = "ValueError" \/ (e.x = <<>> /\ e.r.v = <<>>)
     ELSE IF e.r.err # "" THEN e.r.err = "ValueError" /\ \E p \in DOMAIN e.x : \E o \in S(p) : Raises(o, e.be)
     ELSE /\ Len(e.r.v) = Len(e.x)
          /\ \A p \in DOMAIN e.x : \E o \in S(p) : Matches(o, e.r.v[p]) /\ ~Raises(o, e.be)
Good(e) == IF e.op = "at" THEN At(e) ELSE e.op = "refused" /\ e.r.ok
Step(e) ==
  IF e.op = "grid" THEN g' = Grid(e)
  ELSE IF e.op = "values" THEN g' = [g EXCEPT !.data = e.data]
  ELSE Good(e) = TRUE /\ g' = g
TraceInit == l = 1 /\ g = <<>>
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
