SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Preserving Total SameEnds Emit
VIEW Shape
