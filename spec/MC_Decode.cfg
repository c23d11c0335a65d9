SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS DecodeProps Emit
