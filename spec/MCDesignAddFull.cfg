SPECIFICATION DSpec
CONSTANT Steps = 1
CONSTANT Jobs <- FullAdd
INVARIANT Laws
CHECK_DEADLOCK FALSE
