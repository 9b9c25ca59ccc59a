SPECIFICATION Spec
INVARIANT Tree
INVARIANT Saved
INVARIANT Copied
INVARIANT Found
INVARIANT EmitDone
PROPERTY Frame
