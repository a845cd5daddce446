------------------------------ MODULE Dispatch ------------------------------
(* A parallel computation over the elements 0..size-1.  Parts of the range   *)
(* are processed, in any interleaving, by the calls of a worker; an element  *)
(* may fail, which ends its part.  Whatever the partition and the schedule:  *)
(* every element is processed exactly once, the computation ends after all   *)
(* its parts, with the error of a failing element if and only if there is    *)
(* one.  Nothing is said of the partition itself.                            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  size,    \* number of elements
  failing, \* elements whose processing raises an error
  parts,   \* parts[c] = [s, e, pos, st] of the c-th call of the worker
  out,     \* number of times each element has been processed
  phase    \* "idle", "running", "returned" or "raised"
vars == <<size, failing, parts, out, phase>>
Elements == 0..(size - 1)
Init == /\ size = 0 /\ failing = {} /\ parts = <<>> /\ out = <<>>
        /\ phase = "idle"
\* Begin a computation.
Begin(n, F) ==
  /\ phase # "running"
  /\ size' = n /\ failing' = F /\ parts' = <<>>
  /\ out' = [i \in 0..(n - 1) |-> 0]
  /\ phase' = "running"
Disjoint(p, s, e) == s >= e \/ p.s >= p.e \/ e <= p.s \/ p.e <= s
\* A part of the range is given to a call of the worker.
Start(s, e) ==
  /\ phase = "running" /\ 0 <= s /\ s <= e /\ e <= size
  /\ (\A c \in DOMAIN parts : Disjoint(parts[c], s, e)) = TRUE
  /\ parts' = Append(parts, [s |-> s, e |-> e, pos |-> s, st |-> "run"])
  /\ UNCHANGED <<size, failing, out, phase>>
Running(c) == phase = "running" /\ c \in DOMAIN parts /\ parts[c].st = "run"
\* The next element of a part is processed.
Element(c) ==
  /\ Running(c) /\ parts[c].pos < parts[c].e /\ parts[c].pos \notin failing
  /\ out' = [out EXCEPT ![parts[c].pos] = @ + 1]
  /\ parts' = [parts EXCEPT ![c].pos = @ + 1]
  /\ UNCHANGED <<size, failing, phase>>
\* The next element of a part raises an error.
Fail(c) ==
  /\ Running(c) /\ parts[c].pos < parts[c].e /\ parts[c].pos \in failing
  /\ parts' = [parts EXCEPT ![c].st = "failed"]
  /\ UNCHANGED <<size, failing, out, phase>>
\* The end of a part is reached.
End(c) ==
  /\ Running(c) /\ parts[c].pos = parts[c].e
  /\ parts' = [parts EXCEPT ![c].st = "done"]
  /\ UNCHANGED <<size, failing, out, phase>>
Ended == \A c \in DOMAIN parts : parts[c].st # "run"
Failed == {c \in DOMAIN parts : parts[c].st = "failed"}
\* The computation returns its result.
Return ==
  /\ phase = "running" /\ Ended /\ Failed = {}
  /\ \A i \in Elements : out[i] = 1
  /\ phase' = "returned" /\ UNCHANGED <<size, failing, parts, out>>
\* The computation raises the error of the element i.
Raise(i) ==
  /\ phase = "running" /\ Ended
  /\ (\E c \in Failed : parts[c].pos = i) = TRUE
  /\ phase' = "raised" /\ UNCHANGED <<size, failing, parts, out>>
Next(N) == \/ \E n \in 0..N : \E F \in SUBSET (0..(n - 1)) : Begin(n, F)
           \/ \E s, e \in 0..size : Start(s, e)
           \/ \E c \in DOMAIN parts : Element(c) \/ Fail(c) \/ End(c)
           \/ Return
           \/ \E i \in Elements : Raise(i)
\* What the user relies on.
AtMostOnce == \A i \in Elements : out[i] <= 1
NoFailureProcessed == \A i \in Elements \cap failing : out[i] = 0
CompleteResult == phase = "returned" =>
  failing = {} /\ \A i \in Elements : out[i] = 1
ErrorReported == phase = "raised" => failing # {}
AllJoined == phase \in {"returned", "raised"} => Ended
=============================================================================
