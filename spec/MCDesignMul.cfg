SPECIFICATION DSpec
CONSTANT Steps = 1
CONSTANT Jobs <- QuickMul
INVARIANT Laws
CHECK_DEADLOCK FALSE
