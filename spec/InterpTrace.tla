----------------------------- MODULE InterpTrace ----------------------------
EXTENDS Interp, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g
vars == <<l, g>>
NoGrid == [x |-> NoAxis, y |-> NoAxis, z |-> <<>>, u |-> <<>>, q |-> <<>>]
Grid(e) == [x |-> MakeAxis(e.x, e.C), y |-> MakeAxis(e.y, 0), z |-> e.z,
            u |-> e.u, q |-> e.q]
Step(e) ==
  \/ e.op = "grid" /\ g' = Grid(e)
  \/ e.op = "at" /\ UNCHANGED g /\ Len(e.r) = Len(e.p)
     /\ \A k \in 1..Len(e.p) :
          Accept(e.r[k], Outcomes(g, e.p[k], e.m, e.zm, e.um))
  \* bounds errors requested
  \/ e.op = "bounds" /\ UNCHANGED g
     /\ (e.r = "ok") = (\A k \in 1..Len(e.p) : Inside(g, e.p[k]))
     /\ e.r \in {"ok", "ValueError"}
  \/ e.op = "refused" /\ UNCHANGED g /\ e.r
Init == l = 1 /\ g = NoGrid
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
