SPECIFICATION Spec
CONSTANTS NChunks = 2 Gets = 2 Removes = 1 Fails = 1 Lies = 1 Gen = FALSE
CONSTANTS Peers = {1, 2}
CONSTANT Has <- HasMC
CONSTRAINT Bound
INVARIANTS DlOK Keeps Same OneTransfer
CHECK_DEADLOCK FALSE
