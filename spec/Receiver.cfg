SPECIFICATION Spec
CONSTANT Depth = 6
VIEW View
INVARIANT SavedOK
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
