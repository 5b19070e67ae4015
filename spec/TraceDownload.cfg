SPECIFICATION Spec
INVARIANTS DlOK Done At
CHECK_DEADLOCK FALSE
