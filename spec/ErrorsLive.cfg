SPECIFICATION Spec
INVARIANTS AllReported NothingElse OnceEach Bounded
PROPERTY Terminates
CHECK_DEADLOCK FALSE
