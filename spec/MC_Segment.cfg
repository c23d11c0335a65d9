SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Agrees Emit
