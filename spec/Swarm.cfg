SPECIFICATION Spec
CONSTANTS Nodes = {1, 2, 3} NChunks = 2 Kills = 2 Depth = 0
INVARIANT SwOK
PROPERTY Completes
CHECK_DEADLOCK FALSE
