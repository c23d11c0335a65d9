SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Agrees NoEmpty Everything Emit
PROPERTY Halts
