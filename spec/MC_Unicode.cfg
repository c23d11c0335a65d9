SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS FormProps Emit
