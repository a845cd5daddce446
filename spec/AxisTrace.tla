----------------------------- MODULE AxisTrace ------------------------------
(* Validation of recorded axis sessions against Axis.                      *)
EXTENDS Axis, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<objs, l>>
Slots == 1..4

Describes(a, r) ==
  /\ r.len = Len(a.v)
  /\ r.values = a.v
  /\ r.front = a.v[1] /\ r.back = a.v[Len(a.v)]
  /\ r.min = Lo(a.v) /\ r.max = Hi(a.v)
  /\ (Len(a.v) > 1 => r.asc = Ascending(a.v))
  /\ r.circ = a.circ
  /\ r.reg = Evenly(a.v)
  /\ r.inc = (IF Evenly(a.v) THEN a.v[2] - a.v[1] ELSE 0)

Step(e) ==
  \/ e.op = "new" /\ e.r /\ New(e.s, e.v, e.C)
  \/ e.op = "new" /\ ~e.r /\ ~Constructible(e.v, e.C) /\ UNCHANGED objs
  \/ e.op = "flip" /\ FlipInPlace(e.s)
  \/ e.op = "flipcopy" /\ FlipCopy(e.s, e.t)
  \/ e.op = "dup" /\ Duplicate(e.s, e.t)
  \/ e.op = "drop" /\ objs' = [s \in Slots |-> NoAxis]
  \/ e.op = "describe" /\ Describes(objs[e.s], e.r) /\ UNCHANGED objs
  \/ e.op = "eq" /\ e.r = SameAxis(objs[e.s], objs[e.t]) /\ UNCHANGED objs
  \/ /\ e.op = "find_index" /\ UNCHANGED objs /\ Len(e.r) = Len(e.q)
     /\ \A k \in 1..Len(e.q) :
           e.r[k] \in FindIndex(objs[e.s], e.q[k], e.bounded)
  \/ /\ e.op = "find_indexes" /\ UNCHANGED objs /\ Len(e.r) = Len(e.q)
     /\ \A k \in 1..Len(e.q) : e.r[k] \in FindIndexes(objs[e.s], e.q[k])
  \/ /\ e.op = "slice" /\ UNCHANGED objs
     /\ e.r = Slice(objs[e.s], e.start, e.count, e.step)
  \/ /\ e.op = "window" /\ UNCHANGED objs
     /\ e.r \in Windows(objs[e.s], e.q, e.size, e.mode)

TraceInit == Init(Slots) /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
