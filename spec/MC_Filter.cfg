SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Agrees Safe Emit
PROPERTY Halts
