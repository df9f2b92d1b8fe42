INIT Init
NEXT Next
INVARIANT KernelOK
CHECK_DEADLOCK FALSE
