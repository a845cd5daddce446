------------------------------ MODULE GridGen -------------------------------
(* Short lives of grids: built one way, then copied, pickled, read.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLE hist
Ev(o, m) == hist' = Append(hist, [op |-> o, how |-> m])
GInit == hist = <<>>
Build == \/ \E m \in {"none", "inplace", "copy"} : Ev("build", m)
         \/ \E m \in {"none", "inplace"} : Ev("xarray", m)
         \/ Ev("core", "none")
GNext == /\ Len(hist) < Depth
         /\ IF hist = <<>> THEN Build
            ELSE \/ \E m \in {"pickle", "deepcopy", "state"} : Ev("copy", m)
                 \/ \E m \in {"nearest", "bilinear"} : Ev("at", m)
                 \/ Ev("again", "inplace") \/ Ev("again", "copy") \/ Ev("again", "none")
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
