SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Limit OnceEach FirstAsked AddedKept FromSamples Judged Emit
PROPERTY Halts
