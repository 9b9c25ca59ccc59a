SPECIFICATION Spec
INVARIANT Commutes
INVARIANT Division
INVARIANT Rounding
INVARIANT Parts
INVARIANT BitLaws
INVARIANT Shifts
INVARIANT Between
INVARIANT Broadcast
INVARIANT EmitDone
