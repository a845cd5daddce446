------------------------------ MODULE CurveGen ------------------------------
(* Every short history of uses of one interpolator: values or slopes, for   *)
(* any numbers of points, one after the other.                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Sizes
VARIABLES hist
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E n \in Sizes, o \in {"value", "slope"} : hist' = Append(hist, [op |-> o, n |-> n])
GSpec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
