-------------------------------- MODULE Axis --------------------------------
(* Axis objects living in slots; their meaning is in AxisFns.               *)
EXTENDS AxisFns

VARIABLE objs        \* slot -> axis value, or NoAxis

-----------------------------------------------------------------------------
(* State machine over slots.                                               *)
Init(S) == objs = [s \in S |-> NoAxis]
New(s, raw, C) == /\ Constructible(raw, C)
                  /\ objs' = [objs EXCEPT ![s] = MakeAxis(raw, C)]
FlipInPlace(s) == /\ objs[s].v # <<>>
                  /\ objs' = [objs EXCEPT ![s] = Flip(objs[s])]
FlipCopy(s, t) == /\ objs[s].v # <<>>
                  /\ objs' = [objs EXCEPT ![t] = Flip(objs[s])]
Duplicate(s, t) == /\ objs[s].v # <<>>      \* copy, pickle round trip
                   /\ objs' = [objs EXCEPT ![t] = objs[s]]
=============================================================================
