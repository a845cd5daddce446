----------------------------- MODULE DispatchGen ----------------------------
(* Every schedule of the algorithm of DispatchMC (without failing creations *)
(* of threads): the order in which the elements are processed.              *)
EXTENDS DispatchMC, Json
VARIABLE order
GInit == Init /\ order = <<>>
Done(c) == parts'[c].pos # parts[c].pos \/ parts'[c].st = "failed"
\* the element processed by the step, if any
Visited == {c \in DOMAIN parts : Done(c)}
GNext == /\ Next
         /\ order' = IF pc = "idle" \/ Visited = {} THEN order
                     ELSE Append(order, parts[CHOOSE c \in Visited : TRUE].pos)
GSpec == GInit /\ [][GNext]_<<mvars, order>>
Emit == pc = "done" => PrintT("@@" \o ToJson([n |-> size, t |-> asked, failing |-> failing, order |-> order]))
=============================================================================
