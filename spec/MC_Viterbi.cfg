SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Invariant Allowed
PROPERTY Ends
