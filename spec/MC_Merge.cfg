SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Bounds Encodable Judged Emit
PROPERTY Halts
