SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS StretchesOK JudgeOK Emit
