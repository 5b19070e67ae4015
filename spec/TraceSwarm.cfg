SPECIFICATION Spec
INVARIANTS SwOK Done At
CHECK_DEADLOCK FALSE
