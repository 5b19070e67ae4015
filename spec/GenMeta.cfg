SPECIFICATION Spec
INVARIANTS Unique Emit
CHECK_DEADLOCK FALSE
