SPECIFICATION DSpec
CONSTANT Steps = 1
CONSTANT Jobs <- QuickAdd
INVARIANT Laws
CHECK_DEADLOCK FALSE
