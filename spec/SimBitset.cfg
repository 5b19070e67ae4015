SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2}
  Idx = {0, 1, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 200}
  Sizes = {0, 1, 2, 5, 63, 64, 65, 127, 128, 129, 192}
  Queries <- SimQueries
  Depth = 24
  Emit = "sim"
INVARIANTS TypeOK Agrees EmitBehaviour
CHECK_DEADLOCK FALSE
