SPECIFICATION Spec
INVARIANT Laws
INVARIANT DictLaws
INVARIANT EmitDone
