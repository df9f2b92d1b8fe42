SPECIFICATION TSpec
VIEW TView
CONSTANT Jobs <- FullJobs
INVARIANTS TTypeOK Linear Eliminates
PROPERTY Follows
CHECK_DEADLOCK FALSE
