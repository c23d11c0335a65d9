SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS EndsAgree FindsAgree UnionAgrees Emit
