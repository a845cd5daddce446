--------------------------- MODULE DispatchTrace ----------------------------
(* The recorded executions of detail::dispatch are behaviours of Dispatch;   *)
(* the parallel functions give the same outcome for any number of threads.  *)
EXTENDS Dispatch, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, base
Set(s) == {s[i] : i \in DOMAIN s}
Part(c, i) == c \in DOMAIN parts /\ parts[c].pos = i
\* A parallel function: r = [st, v, who]; the outcome of the sequential
\* execution (first) is that of all the others, up to the failing element
\* which is reported.
Result(e) == IF e.first THEN e.r0 ELSE e.r
Outcome(e) ==
  LET r == Result(e)
      F == Set(e.failing)
  IN /\ IF e.known THEN r.st = (IF F = {} THEN "ok" ELSE "error")
        ELSE r.st \in {"ok", "error"}
     /\ (e.known /\ F # {}) => r.who \in F
     /\ e.first \/ (r.st = base.st /\ r.v = base.v)
Step(e) ==
  IF e.op = "begin" THEN Begin(e.n, Set(e.failing)) /\ UNCHANGED base
  ELSE IF e.op = "start" THEN Start(e.at[1], e.at[2]) /\ UNCHANGED base
  ELSE IF e.op = "elem" THEN Part(e.r[1], e.r[2]) /\ Element(e.r[1]) /\ UNCHANGED base
  ELSE IF e.op = "fail" THEN Part(e.r[1], e.r[2]) /\ Fail(e.r[1]) /\ UNCHANGED base
  ELSE IF e.op = "end" THEN End(e.r[1]) /\ UNCHANGED base
  ELSE IF e.op = "return" THEN Return /\ UNCHANGED base
  ELSE IF e.op = "raise" THEN Raise(e.r[1]) /\ UNCHANGED base
  ELSE IF e.op = "site" THEN Outcome(e) = TRUE /\ base' = (IF e.first THEN e.r0 ELSE base)
                             /\ UNCHANGED vars
  ELSE FALSE
TraceInit == Init /\ l = 1 /\ base = [st |-> "", v |-> 0, who |-> 0]
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l, base>>
TraceInvariant == AtMostOnce /\ NoFailureProcessed /\ CompleteResult /\ ErrorReported /\ AllJoined
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
