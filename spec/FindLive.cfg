SPECIFICATION Spec
INVARIANT Reached
PROPERTY Terminates
CHECK_DEADLOCK FALSE
