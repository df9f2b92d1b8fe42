SPECIFICATION DSpec
CONSTANT Steps = 1
CONSTANT Jobs <- FullInv
INVARIANT Laws
CHECK_DEADLOCK FALSE
