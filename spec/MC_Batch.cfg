SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Correct Once Disjoint Emit
PROPERTY Ends
