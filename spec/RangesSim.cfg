SPECIFICATION Spec
INVARIANT Bounded
INVARIANT Exact
INVARIANT EmitDone
