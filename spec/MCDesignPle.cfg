SPECIFICATION DSpec
CONSTANT Steps = 1
CONSTANT Jobs <- QuickPle
INVARIANT Laws
CHECK_DEADLOCK FALSE
