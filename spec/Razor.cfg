SPECIFICATION Spec
INVARIANT Balanced
INVARIANT RefusedOnlyStrict
INVARIANT ScopesClosed
INVARIANT EmitDone
