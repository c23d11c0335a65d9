SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS CoherentInv PreservedInv Emit
PROPERTY Steps
