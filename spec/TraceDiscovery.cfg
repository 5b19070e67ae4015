SPECIFICATION Spec
INVARIANTS Done At
CHECK_DEADLOCK FALSE
