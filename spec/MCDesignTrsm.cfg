SPECIFICATION DSpec
CONSTANT Steps = 1
CONSTANT Jobs <- QuickTrsm
INVARIANT Laws
CHECK_DEADLOCK FALSE
