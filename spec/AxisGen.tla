------------------------------ MODULE AxisGen --------------------------------
(* Enumerates every history of construct/flip/copy/pickle operations of a   *)
(* given length over the slots; each is replayed on the implementation.     *)
EXTENDS Axis, TLC, Json
CONSTANTS Depth, NSlots
VARIABLE hist
S == 1..NSlots
A0 == <<0, 1, 3>>
GInit == Init(S) /\ hist = <<>>
Do(ev, act) == act /\ hist' = Append(hist, ev)
GNext ==
  /\ Len(hist) < Depth
  /\ \/ \E s \in S : /\ objs[s] = NoAxis
                     /\ \A t \in S : t < s => objs[t] # NoAxis
                     /\ Do([op |-> "new", s |-> s], New(s, A0, 0))
     \/ \E s \in S : Do([op |-> "flip", s |-> s], FlipInPlace(s))
     \/ \E s, t \in S : s # t /\
           (\/ Do([op |-> "flipcopy", s |-> s, t |-> t], FlipCopy(s, t))
            \/ Do([op |-> "pickle", s |-> s, t |-> t], Duplicate(s, t))
            \/ Do([op |-> "copy", s |-> s, t |-> t], Duplicate(s, t)))
GSpec == GInit /\ [][GNext]_<<objs, hist>>
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
