----------------------------- MODULE GeohashGen -----------------------------
(* Every short walk: towards a neighbour, to the ancestor, to a descendant, *)
(* through a copy.                                                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLE hist
Ev(o, k) == hist' = Append(hist, [op |-> o, k |-> k])
GInit == hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \/ \E k \in 1..8 : Ev("walk", k)
            \/ Ev("out", 0) \/ Ev("in", 0) \/ Ev("copy", 0)
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
