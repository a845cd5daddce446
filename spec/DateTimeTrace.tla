---------------------------- MODULE DateTimeTrace ---------------------------
EXTENDS DateTime, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
I(x) == [day |-> x[1], sec |-> x[2], hi |-> x[3], lo |-> x[4]]
J(i) == <<i.day, i.sec, i.hi, i.lo>>
\* what the 64 bits of a unit hold, in seconds: a time elapsed since January
\* 1st beyond is not representable and nothing is said of it
Room(u) == CASE u = "ps" -> 9223372 [] u = "fs" -> 9223 [] u = "as" -> 9
             [] OTHER -> 366 * 86400
Fields(i, u, r) ==
  LET c == Civil(i.day)  t == Clock(i.sec) IN
  /\ r.date = c
  /\ r.time = t
  /\ r.weekday = Weekday(i.day)
  /\ r.iso = Iso(i.day)
  /\ YearDay(i.day) * 86400 + i.sec < Room(u) => r.since = <<YearDay(i.day), i.sec, i.hi, i.lo>>
  /\ r.dt = c \o t \o <<i.hi \div 1000>>            \* microseconds
Step(e) ==
  \* arrays of instants of one unit, every field; "as" dates to 1 microsecond
  \/ e.op = "fields" /\ Sub(e.u) /\ Len(e.r) = Len(e.x)
     /\ \A k \in 1..Len(e.x) : Fields(I(e.x[k]), e.u, e.r[k])
  \* units coarser than the second, and no dates at all, are refused
  \/ e.op = "refused" /\ \A k \in 1..Len(e.r) : e.r[k]
  \/ e.op = "text" /\ e.r = Text(I(e.x), e.u)
  \* casting to the unit of a temporal axis
  \/ e.op = "cast" /\ Len(e.r.v) = Len(e.x)
     /\ e.r.unit = e.v
     /\ e.r.warned = (Rank(e.u) > Rank(e.v))
     /\ \A k \in 1..Len(e.x) : e.r.v[k] = J(FloorTo(I(e.x[k]), e.v))
  \/ e.op = "notcast" /\ e.r = "RuntimeError"
Init == l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
