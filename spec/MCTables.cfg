SPECIFICATION TSpec
VIEW TView
CONSTANT Jobs <- QuickJobs
INVARIANTS TTypeOK Linear Eliminates
PROPERTY Follows
CHECK_DEADLOCK FALSE
