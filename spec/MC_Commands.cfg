SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Honest Clean Reached Emit
PROPERTY Ends
