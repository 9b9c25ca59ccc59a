SPECIFICATION Spec
INVARIANTS NoLoss OnlyTouchable Placement FaultReported EmitDone
