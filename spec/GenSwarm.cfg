SPECIFICATION Spec
CONSTANTS Nodes = {1, 2, 3, 4, 5} NChunks = 3 Kills = 2 Depth = 9
INVARIANTS SwOK Emit
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
