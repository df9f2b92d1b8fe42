SPECIFICATION DSpec
CONSTANT Steps = 1
CONSTANT Jobs <- FullPle
INVARIANT Laws
CHECK_DEADLOCK FALSE
