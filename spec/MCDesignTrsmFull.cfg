SPECIFICATION DSpec
CONSTANT Steps = 1
CONSTANT Jobs <- FullTrsm
INVARIANT Laws
CHECK_DEADLOCK FALSE
