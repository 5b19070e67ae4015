SPECIFICATION Spec
INVARIANTS Faithful Emit
CHECK_DEADLOCK FALSE
