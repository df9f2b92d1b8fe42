SPECIFICATION DSpec
CONSTANT Steps = 1
CONSTANT Jobs <- FullMul
INVARIANT Laws
CHECK_DEADLOCK FALSE
