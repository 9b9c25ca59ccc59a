SPECIFICATION Spec
INVARIANT SplitJoin
INVARIANT Indented
INVARIANT UnIndented
INVARIANT Centered
INVARIANT Wrapped
INVARIANT Identifier
INVARIANT Lists
INVARIANT EmitDone
INVARIANT Selected
INVARIANT Trimmed
