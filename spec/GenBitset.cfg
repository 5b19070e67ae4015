SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2}
  Idx = {0, 1, 2}
  Sizes = {0, 1, 3}
  Queries = {}
  Depth = 7
  Emit = "bfs"
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitTransition
INVARIANTS TypeOK Agrees RunsOK
CHECK_DEADLOCK FALSE
