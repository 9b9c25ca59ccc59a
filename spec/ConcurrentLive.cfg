SPECIFICATION Fair
INVARIANT Exclusive
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
