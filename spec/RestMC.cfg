SPECIFICATION Spec
CONSTANTS
  Slack = 0
  MemorySlack = 0
  MaxWorks = 3
  NoLimit = FALSE
  NoRelease = FALSE
  Generate = FALSE
INVARIANT Rested
PROPERTY Lets
CHECK_DEADLOCK FALSE
