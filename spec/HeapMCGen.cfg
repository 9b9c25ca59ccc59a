SPECIFICATION Spec
INVARIANT TypeOk
INVARIANT UniqueOk
INVARIANT EmitDone
PROPERTY Persistent
PROPERTY OnlyMutators
PROPERTY Separate
PROPERTY MergeKeeps
