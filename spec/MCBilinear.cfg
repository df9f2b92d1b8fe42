SPECIFICATION BSpec
CONSTANT Steps = 1
CONSTANT Jobs <- QuickBil
INVARIANT Laws
CHECK_DEADLOCK FALSE
