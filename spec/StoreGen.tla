------------------------------ MODULE StoreGen ------------------------------
(* Every short history of operations on a few stores of samples: new data,  *)
(* merge, sum, copies and clearing, object k being used only once k - 1 is. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, NSlots, Ops
VARIABLES hist, used
S == 1..NSlots
GInit == hist = <<[op |-> "push", s |-> 1, t |-> 1]>> /\ used = 1
Live == 1..used
Fresh == 1..(IF used < NSlots THEN used + 1 ELSE used)
Ev(o, s, t) == hist' = Append(hist, [op |-> o, s |-> s, t |-> t])
GNext == /\ Len(hist) < Depth
         /\ \/ \E s \in Fresh : Ev("push", s, s) /\ used' = IF s > used THEN s ELSE used
            \/ \E s, t \in Live, o \in {"merge", "sum"} \cap Ops :
                  Ev(o, s, t) /\ UNCHANGED used
            \/ \E s \in Live, o \in {"clear", "resize", "pack"} \cap Ops :
                  Ev(o, s, s) /\ UNCHANGED used
            \/ \E s \in Live, t \in Fresh, o \in {"copy", "pickle"} \cap Ops :
                  s # t /\ Ev(o, s, t) /\ used' = IF t > used THEN t ELSE used
GSpec == GInit /\ [][GNext]_<<hist, used>>
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
