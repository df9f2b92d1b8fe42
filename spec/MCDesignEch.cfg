SPECIFICATION DSpec
CONSTANT Steps = 1
CONSTANT Jobs <- QuickEch
INVARIANT Laws
CHECK_DEADLOCK FALSE
