SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Stable Faithful Refused Emit
