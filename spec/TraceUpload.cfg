SPECIFICATION Spec
INVARIANTS UpOK Done At
CHECK_DEADLOCK FALSE
