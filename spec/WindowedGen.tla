----------------------------- MODULE WindowedGen ------------------------------
(* Every short sequence of positions of one call: the windows of the ones    *)
(* must not tell upon the next.                                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist
Where == {"in", "node", "edge", "out", "nan"}
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E w \in Where : hist' = Append(hist, w)
GSpec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
