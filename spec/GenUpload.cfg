SPECIFICATION Spec
CONSTANTS
  Caps = {1, 2, 5}
  Depth = 9
  MaxReq = 2
  Surplus = 1
VIEW View
INVARIANTS UpOK
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
