SPECIFICATION LiveSpec
CONSTANTS NChunks = 2 Gets = 2 Removes = 0 Fails = 1 Lies = 0 Gen = FALSE
CONSTANTS Peers = {1, 2}
CONSTANT Has <- HasMC
CONSTRAINT Bound
INVARIANTS Keeps Same
PROPERTIES Ends Gets1
CHECK_DEADLOCK FALSE
