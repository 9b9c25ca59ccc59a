SPECIFICATION Spec
INVARIANT Reached
INVARIANT Inside
INVARIANT EmitDone
