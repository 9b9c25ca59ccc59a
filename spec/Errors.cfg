SPECIFICATION Spec
INVARIANTS AllReported NothingElse OnceEach Bounded EmitDone
CHECK_DEADLOCK FALSE
