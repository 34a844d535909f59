SPECIFICATION Spec
INVARIANT Mutex
INVARIANT Once
INVARIANT Order
INVARIANT Complete
PROPERTY Ends
