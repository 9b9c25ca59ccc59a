SPECIFICATION Spec
INVARIANT Exclusive
INVARIANT Alone
INVARIANT EmitDone
PROPERTY Locked
CHECK_DEADLOCK FALSE
