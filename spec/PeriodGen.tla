------------------------------ MODULE PeriodGen -----------------------------
(* Every history of list operations over the slots (arguments are chosen by *)
(* the driver).                                                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, NSlots
VARIABLE hist
S == 1..NSlots
Ops == {"join", "joinip", "within", "clip", "filter", "pickle"}
GInit == hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \/ \E s, t \in S : s # t /\ hist' = Append(hist, [op |-> "merge", s |-> s, t |-> t])
            \/ \E s, t \in S, o \in Ops :
                  (o = "joinip" => s = t) /\ (o = "pickle" => s # t)
                  /\ hist' = Append(hist, [op |-> o, s |-> s, t |-> t])
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
