----------------------------- MODULE DispatchMC -----------------------------
(* The algorithm: the calling thread cuts the range in as many parts as      *)
(* threads (at most one per element, at least one), gives each part to a     *)
(* thread, or processes it itself if no thread can be created or if a single *)
(* one is requested, joins the threads and raises the first of the errors    *)
(* they captured.  It implements Dispatch, always ends, and its result is    *)
(* independent of the number of threads and of the schedule.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,        \* maximum number of elements
          MaxT,     \* maximum number of threads requested
          Cpus,     \* number of processors (0: unknown)
          NoThread  \* can the creation of threads fail?
VARIABLES size, failing, parts, out, phase,
  asked,   \* number of threads requested
  pc,      \* program counter of the calling thread
  ix,      \* index of the part it handles
  owner,   \* parts given to a thread ("thread") or processed inline ("self")
  errs     \* error captured for each part (-1: none)
mvars == <<size, failing, parts, out, phase, asked, pc, ix, owner, errs>>
D == INSTANCE Dispatch
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Threads == Max(Min(IF asked = 0 THEN Cpus ELSE asked, size), 1)
Shift == size \div Threads
First(k) == (k - 1) * Shift
Last(k) == IF k = Threads THEN size ELSE k * Shift
Init == D!Init /\ asked = 1 /\ pc = "idle" /\ ix = 1 /\ owner = <<>> /\ errs = <<>>
Begin == /\ pc = "idle"
         /\ \E n \in 0..N, t \in 0..MaxT : \E F \in SUBSET (0..(n - 1)) :
              D!Begin(n, F) /\ asked' = t
         /\ pc' = "spawn" /\ ix' = 1 /\ owner' = <<>> /\ errs' = <<>>
\* the calling thread gives the part to a thread, or keeps it
Spawn == /\ pc = "spawn"
         /\ D!Start(First(ix), Last(ix))
         /\ errs' = Append(errs, -1)
         /\ \E o \in IF Threads = 1 THEN {"self"} ELSE IF NoThread THEN {"thread", "self"} ELSE {"thread"} :
              /\ owner' = Append(owner, o)
              /\ pc' = IF o = "self" THEN "inline" ELSE IF ix < Threads THEN "spawn" ELSE "join"
              /\ ix' = IF o = "self" THEN ix ELSE IF ix < Threads THEN ix + 1 ELSE 1
         /\ UNCHANGED asked
\* one step of the processing of a part
Step(c) == \/ D!Element(c) /\ UNCHANGED errs
           \/ D!Fail(c) /\ errs' = [errs EXCEPT ![c] = parts[c].pos]
           \/ D!End(c) /\ UNCHANGED errs
Work(c) == /\ c \in DOMAIN parts /\ owner[c] = "thread" /\ Step(c)
           /\ UNCHANGED <<asked, pc, ix, owner>>
Inline == /\ pc = "inline" /\ Step(ix)
          /\ IF parts'[ix].st = "run" THEN UNCHANGED <<pc, ix>>
             ELSE IF ix < Threads THEN pc' = "spawn" /\ ix' = ix + 1
             ELSE pc' = "join" /\ ix' = 1
          /\ UNCHANGED <<asked, owner>>
Join == /\ pc = "join" /\ parts[ix].st # "run"
        /\ IF ix < Threads THEN ix' = ix + 1 /\ UNCHANGED pc
           ELSE pc' = "report" /\ UNCHANGED ix
        /\ UNCHANGED <<size, failing, parts, out, phase, asked, owner, errs>>
Errors == {c \in DOMAIN errs : errs[c] # -1}
Report == /\ pc = "report"
          /\ IF Errors = {} THEN D!Return
             ELSE D!Raise(errs[CHOOSE c \in Errors : \A d \in Errors : c <= d])
          /\ pc' = "done" /\ UNCHANGED <<asked, ix, owner, errs>>
Next == Begin \/ Spawn \/ Inline \/ Join \/ Report \/ \E c \in 1..Len(parts) : Work(c)
Spec == Init /\ [][Next]_mvars
        /\ WF_mvars(Spawn \/ Inline \/ Join \/ Report)
        /\ \A c \in 1..Max(N, 1) : WF_mvars(Work(c))
\* refinement of Dispatch, and liveness
Implements == D!Init /\ [][D!Next(N)]_<<size, failing, parts, out, phase>>
Terminates == (pc = "spawn") ~> (pc = "done")
\* the result depends on the elements only
Deterministic == pc = "done" =>
  IF failing = {} THEN phase = "returned" /\ \A i \in 0..(size - 1) : out[i] = 1
  ELSE phase = "raised" /\ \A i \in 0..(size - 1) : out[i] <= 1
AtMostOnce == D!AtMostOnce
NoFailureProcessed == D!NoFailureProcessed
CompleteResult == D!CompleteResult
ErrorReported == D!ErrorReported
AllJoined == D!AllJoined
\* no thread without an element to process
NoIdleThread == \A c \in DOMAIN owner : owner[c] = "thread" => parts[c].s < parts[c].e
=============================================================================
