INIT Init
NEXT Next
VIEW View
INVARIANT Consistent
CHECK_DEADLOCK FALSE
