---------------------------- MODULE KernelTrace ----------------------------
EXTENDS Kernel, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* cloud: slot -> points; seen: number -> estimates made
VARIABLES l, cloud, seen
vars == <<l, cloud, seen>>
Upd(f, s, o) == [k \in DOMAIN f \cup {s} |-> IF k = s THEN o ELSE f[k]]
One(e, q, r) ==
  LET c == cloud[e.s] IN
  CASE e.op = "idw" -> IdwOk(c, q, e.k, e.rad, e.p, e.within, r)
    [] e.op = "window" -> WindowOk(c, q, e.k, e.rad, e.f, e.arg, e.within, r)
    [] e.op = "kernel" -> KernelOk(c, q, e.k, e.rad, e.f, e.e2, e.smooth, e.within, r)
Kept(e) == [c |-> cloud[e.s], q |-> e.q, r |-> e.r, k |-> e.k, rad |-> e.rad,
            within |-> e.within, m |-> e.m, mean |-> e.op # "kernel"]
Alike(a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a : /\ a[i][2] = b[i][2]
                         /\ IF a[i][1] = Undef THEN b[i][1] = Undef
                            ELSE Near(a[i][1], b[i][1], tol)
Bag(c) == {<<c.p[i], c.v[i]>> : i \in DOMAIN c.p}
Add(a, d) == <<a[1] + d[1], a[2] + d[2], a[3] + d[3]>>
\* the situations x and y have the same answer
Related(x, y, rel, d) ==
  CASE rel = "order" -> Bag(x.c) = Bag(y.c) /\ Len(x.c.p) = Len(y.c.p) /\ x.q = y.q
                        /\ x.k = y.k /\ x.rad = y.rad /\ x.within = y.within
    [] rel = "shift" -> /\ x.c.v = y.c.v
                        /\ y.c.p = [i \in DOMAIN x.c.p |-> Add(x.c.p[i], d)]
                        /\ y.q = [i \in DOMAIN x.q |-> Add(x.q[i], d)]
                        /\ x.k = y.k /\ x.rad = y.rad /\ x.within = y.within
    [] rel = "local" -> /\ Len(x.q) = 1 /\ x.q = y.q /\ y.rad \in {-1, x.rad} /\ ~y.within
                        /\ Bag(y.c) = UsedPoints(x.c, x.q[1], x.k, x.rad, x.within, x.mean)
                        /\ Len(y.c.p) <= y.k
    [] rel = "twin" -> TRUE    \* the same request expressed otherwise
Settled1(x) == \A i \in DOMAIN x.q : Settled(Dists(x.c, x.q[i]), x.k)
\* values z = a * x + b * y
Superposed(x, y, z, a, b) ==
  /\ x.c.p = y.c.p /\ x.c.p = z.c.p /\ x.q = y.q /\ x.q = z.q /\ x.m = y.m /\ x.m = z.m /\ x.k = y.k /\ x.k = z.k
  /\ x.rad = y.rad /\ x.rad = z.rad /\ x.within = y.within /\ x.within = z.within
  /\ z.c.v = [i \in DOMAIN x.c.v |-> a * x.c.v[i] + b * y.c.v[i]]
  /\ \A i \in DOMAIN x.r :
       Settled(Dists(x.c, x.q[i]), x.k) =>
       /\ x.r[i][2] = y.r[i][2] /\ x.r[i][2] = z.r[i][2]
       /\ IF x.r[i][1] = Undef THEN y.r[i][1] = Undef /\ z.r[i][1] = Undef
          ELSE Near(z.r[i][1], a * x.r[i][1] + b * y.r[i][1], 2 + Abs(a) + Abs(b))
Step(e) ==
  \/ e.op = "cloud" /\ Len(e.c) = Len(e.v)
     /\ cloud' = Upd(cloud, e.s, [p |-> e.c, v |-> e.v]) /\ UNCHANGED seen
  \/ e.op \in {"idw", "window", "kernel"} /\ UNCHANGED cloud
     /\ Len(e.q) = Len(e.r)
     /\ \A i \in DOMAIN e.q : One(e, e.q[i], e.r[i]) = TRUE
     /\ seen' = Upd(seen, e.id, Kept(e))
  \/ e.op = "same" /\ UNCHANGED <<cloud, seen>>
     /\ LET x == seen[e.x]  y == seen[e.y] IN
        (/\ x.m = y.m \/ e.rel = "twin"
         /\ Related(x, y, e.rel, e.d)
         /\ Settled1(x) => Alike(x.r, y.r, e.tol)) = TRUE
  \/ e.op = "sum" /\ UNCHANGED <<cloud, seen>>
     /\ Superposed(seen[e.x], seen[e.y], seen[e.z], e.a, e.b) = TRUE
  \/ e.op = "pair" /\ Alike(e.x, e.y, 2) = TRUE /\ UNCHANGED <<cloud, seen>>
  \/ e.op = "refused" /\ e.r /\ UNCHANGED <<cloud, seen>>
Init == l = 1 /\ cloud = <<>> /\ seen = <<>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
