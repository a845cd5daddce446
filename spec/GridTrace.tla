----------------------------- MODULE GridTrace ------------------------------
(* The recorded grids are those of Grid.tla: how they were built, copied and *)
(* what they hold.                                                           *)
EXTENDS Grid, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cur
vars == <<l, cur>>
Source(e) == [axes |-> [k \in DOMAIN e.axes |-> e.axes[k].v], data |-> e.data]
Wanted(e) == LET t == Transpose(Source(e), e.order) IN
             IF e.inc = "none" THEN t ELSE Increase(t)
Attr(e, k) == <<e.axes[e.order[k]].kind, e.axes[e.order[k]].unit, e.axes[e.order[k]].circle>>
Attrs(e) == [k \in DOMAIN e.order |-> Attr(e, k)]
Kinds(e) == [k \in DOMAIN e.order |-> e.axes[e.order[k]].kind]
Holds(r, g, attrs, class) ==
  /\ [k \in DOMAIN r.axes |-> r.axes[k].v] = g.axes
  /\ [k \in DOMAIN r.axes |-> <<r.axes[k].kind, r.axes[k].unit, r.axes[k].circle>>] = attrs
  /\ r.data = g.data /\ r.shape = Lens(g.axes)
  /\ r.class = class
\* the axes of the caller: flipped if this was asked for
Caller(e) == e.inc \in {"none", "copy", "xarray"} =>
               e.r.caller = [k \in DOMAIN e.axes |-> e.axes[k].v]
Flipped(e) == e.inc = "inplace" =>
               e.r.caller = [k \in DOMAIN e.axes |->
                 IF Ascending(e.axes[k].v) THEN e.axes[k].v ELSE Reverse(e.axes[k].v)]
Build(e) == /\ Holds(e.r, Wanted(e), Attrs(e), Class(Kinds(e), e.dtype))
            /\ Caller(e) /\ Flipped(e)
            /\ cur' = [g |-> Wanted(e), attrs |-> Attrs(e), class |-> Class(Kinds(e), e.dtype)]
Copy(e) == Holds(e.r, cur.g, cur.attrs, cur.class) /\ UNCHANGED cur
Read(e) == e.r = [k \in DOMAIN e.at |-> At(cur.g, e.at[k])] /\ UNCHANGED cur
Try(e) == e.r = (Acceptable(e.n, e.kinds, e.circles, e.lens, e.shape, e.dtype) /\ e.inc # "bad")
          /\ UNCHANGED cur
Event(e) == IF e.op = "build" THEN Build(e)
            ELSE IF e.op = "copy" THEN Copy(e)
            ELSE IF e.op = "at" THEN Read(e)
            ELSE IF e.op = "try" THEN Try(e)
            ELSE FALSE
TraceInit == l = 1 /\ cur = <<>>
TraceNext == l <= Len(Trace) /\ Event(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
