SPECIFICATION Spec
INVARIANTS Faithful Canonical OneNull Emit
CHECK_DEADLOCK FALSE
