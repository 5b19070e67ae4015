SPECIFICATION Spec
CONSTANTS Regs = {1, 2, 3}
INVARIANTS TypeOK Done At
CHECK_DEADLOCK FALSE
