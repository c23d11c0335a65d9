SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Bounds Encodable Spelled Judged Emit
PROPERTY Halts
