SPECIFICATION Spec
VIEW View
INVARIANT TypeOk
INVARIANT UniqueOk
PROPERTY Persistent
PROPERTY OnlyMutators
PROPERTY Separate
PROPERTY MergeKeeps
