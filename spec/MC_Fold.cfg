SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Partition Conserved Correct Emit
PROPERTY Ends
