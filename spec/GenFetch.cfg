SPECIFICATION Spec
CONSTANTS NChunks = 2 Gets = 2 Removes = 2 Fails = 0 Lies = 0 Gen = TRUE
CONSTANTS Peers = {1, 2}
CONSTANT Has <- HasMC
CONSTRAINT Bounded
INVARIANTS Keeps Same
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
