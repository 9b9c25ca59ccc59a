SPECIFICATION Spec
INVARIANT Clean
INVARIANT ExitCode
INVARIANT Rendered
INVARIANT EmitDone
