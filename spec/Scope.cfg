SPECIFICATION Spec
INVARIANT Types
INVARIANT Initial
INVARIANT Distinct
INVARIANT EmitDone
PROPERTY OnlyOwn
CHECK_DEADLOCK FALSE
