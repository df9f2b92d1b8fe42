SPECIFICATION DSpec
CONSTANT Steps = 1
CONSTANT Jobs <- QuickInv
INVARIANT Laws
CHECK_DEADLOCK FALSE
