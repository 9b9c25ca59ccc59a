SPECIFICATION Spec
INVARIANT FailsIffStopped
INVARIANT OnlyGiven
INVARIANT LastWins
INVARIANT EmitDone
