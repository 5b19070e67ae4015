SPECIFICATION Spec
CONSTANTS
  Lens = {1, 3}
  Caps = {1, 2}
  MaxReq = 2
  Extra = 1
  NoSupersede = FALSE
  NoCancel = FALSE
INVARIANTS UpOK Explained IdleOK
CHECK_DEADLOCK FALSE
