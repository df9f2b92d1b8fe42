SPECIFICATION BSpec
CONSTANT Steps = 1
CONSTANT Jobs <- FullBil
INVARIANT Laws
CHECK_DEADLOCK FALSE
