SPECIFICATION Spec
CONSTANTS
  Lens = {1, 2, 4}
  Caps = {1, 2, 3}
  MaxReq = 2
  Extra = 1
  NoSupersede = FALSE
  NoCancel = FALSE
INVARIANTS UpOK Explained IdleOK
CHECK_DEADLOCK FALSE
