SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserved Confluent Formula Weighing Judged Safe Emit
PROPERTY Halts
