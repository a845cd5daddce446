------------------------------- MODULE FillGen -------------------------------
(* Every short history of fillings of one grid: each reads the grid; its     *)
(* result may become the grid which the next one reads.                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist
Ops == {"loess", "smooth", "relax", "matrix"}
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops, k \in BOOLEAN : hist' = Append(hist, [op |-> o, keep |-> k])
GSpec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
