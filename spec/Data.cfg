SPECIFICATION Spec
INVARIANT Laws
INVARIANT EmitDone
