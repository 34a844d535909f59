INIT Init
NEXT Walk
INVARIANT Mutex
INVARIANT Once
INVARIANT Order
INVARIANT Complete
INVARIANT Emit
CHECK_DEADLOCK FALSE
