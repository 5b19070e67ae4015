SPECIFICATION Spec
CONSTANTS
  Lens = {1, 3}
  Caps = {1, 2}
  MaxReq = 2
  Extra = 0
  NoSupersede = FALSE
  NoCancel = FALSE
INVARIANTS UpOK Explained IdleOK
PROPERTIES Proceeds
CHECK_DEADLOCK FALSE
