SPECIFICATION Spec
INVARIANT Exactly
INVARIANT LastSwitch
INVARIANT WithFunction
INVARIANT EmitDone
CHECK_DEADLOCK FALSE
