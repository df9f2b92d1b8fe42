SPECIFICATION DSpec
CONSTANT Steps = 1
CONSTANT Jobs <- FullEch
INVARIANT Laws
CHECK_DEADLOCK FALSE
