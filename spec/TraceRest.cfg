SPECIFICATION Spec
CONSTANTS
  Slack = 2
  MemorySlack = 6
INVARIANTS Done At
CHECK_DEADLOCK FALSE
