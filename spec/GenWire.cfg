SPECIFICATION Spec
INVARIANTS RoundTrips CutShort Emit
CHECK_DEADLOCK FALSE
