SPECIFICATION ObsSpec
INVARIANT Report
