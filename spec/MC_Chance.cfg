SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS CountsOK JudgeOK
