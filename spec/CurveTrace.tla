----------------------------- MODULE CurveTrace -----------------------------
(* The recorded values and slopes are those of the curves of Curve.tla.     *)
EXTENDS Curve, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
TolV(kind) == IF kind = "polynomial" THEN 60 ELSE 5
TolD(kind) == IF kind = "polynomial" THEN 200 ELSE 20
Same(r, w, tol) == IF w = Undef THEN r = Undef ELSE r # Undef /\ Near(r, w, tol)
\* one object used for given points
Use(e) ==
  IF Len(e.xs) # Len(e.ys) \/ Len(e.xs) < MinSize(e.kind) THEN e.r = "ValueError"
  ELSE LET s == Slopes(e.kind, e.xs, e.ys)
           k == IF e.op = "value" THEN 1 ELSE 2
           tol == IF k = 1 THEN TolV(e.kind) ELSE TolD(e.kind)
       IN Len(e.r) = Len(e.q) /\
          \A j \in DOMAIN e.q : Same(e.r[j], At(e.kind, e.xs, e.ys, s, e.q[j])[k], tol)
\* interpolate1d: the first failing position decides
Fail(e, q) == IF Outside(e.xs, q) THEN IF e.be THEN "IndexError" ELSE ""
              ELSE IF ~Enough(e.kind, e.xs, q, e.half) THEN "ValueError" ELSE ""
Along(e) ==
  IF Len(e.xs) # Len(e.ys) \/ e.kind \notin Kinds THEN e.r = "ValueError"
  ELSE LET qs == TLCEval([j \in DOMAIN e.q |-> Turn(e.xs, e.per, e.q[j])])
           bad == {j \in DOMAIN qs : Fail(e, qs[j]) # ""}
       IN IF bad # {} THEN e.r = Fail(e, qs[CHOOSE j \in bad : \A k \in bad : j <= k])
          ELSE Len(e.r) = Len(e.q) /\ \A j \in DOMAIN qs :
                 Same(e.r[j], IF Outside(e.xs, qs[j]) THEN Undef
                              ELSE WindowAt(e.kind, e.xs, e.ys, e.half, qs[j]), TolV(e.kind))
Event(e) == IF e.op \in {"value", "slope"} THEN Use(e)
            ELSE IF e.op = "along" THEN Along(e)
            ELSE FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Event(Trace[l]) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
