----------------------------- MODULE RtreeTrace -----------------------------
EXTENDS Rtree, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* store: contents; slot: the store an object refers to
VARIABLES l, store, slot
vars == <<l, store, slot>>
Upd(f, s, o) == [k \in DOMAIN f \cup {s} |-> IF k = s THEN o ELSE f[k]]
T(e) == store[slot[e.s]]
Fresh == Cardinality(DOMAIN store) + 1
Change(e, t) == store' = [store EXCEPT ![slot[e.s]] = t] /\ UNCHANGED slot
Same == UNCHANGED <<store, slot>>
Step(e) ==
  \/ e.op = "new" /\ store' = Upd(store, Fresh, Empty(e.kind, e.tol)) /\ slot' = Upd(slot, e.s, Fresh)
  \/ e.op = "pack" /\ Change(e, Pack(T(e), e.c, e.v))
  \/ e.op = "insert" /\ Change(e, Insert(T(e), e.c, e.v))
  \/ e.op = "clear" /\ Change(e, Clear(T(e)))
  \/ e.op = "alias" /\ slot' = Upd(slot, e.t, slot[e.s]) /\ UNCHANGED store
  \/ e.op = "copy" /\ store' = Upd(store, Fresh, T(e)) /\ slot' = Upd(slot, e.t, Fresh)
  \/ e.op = "len" /\ e.r = Len(T(e).pts) /\ e.some = (T(e).pts # <<>>) /\ Same
  \/ e.op = "bounds" /\ BoundsOk(T(e), e.r) = TRUE /\ Same
  \/ e.op = "query" /\ Same
     /\ Len(e.q) = Len(e.r)
     /\ \A i \in DOMAIN e.q : QueryOk(T(e), Cart(T(e).kind, e.q[i]), e.k, e.within, e.r[i]) = TRUE
  \/ e.op = "value" /\ Same
     /\ Len(e.q) = Len(e.r)
     /\ \A i \in DOMAIN e.q :
          ValueOk(T(e), Cart(T(e).kind, e.q[i]), e.k, e.radius, e.within, e.r[i]) = TRUE
  \/ e.op = "refused" /\ e.r /\ Same
Init == l = 1 /\ store = <<>> /\ slot = <<>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
