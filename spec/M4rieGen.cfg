SPECIFICATION GSpec
INVARIANTS TypeOK Emit
CONSTANT Steps = 100
CHECK_DEADLOCK FALSE
