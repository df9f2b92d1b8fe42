INIT TInit
NEXT TNext
INVARIANT Progress
CHECK_DEADLOCK FALSE
