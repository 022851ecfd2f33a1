SPECIFICATION Spec
INVARIANTS TypeOK Whole WholeTr InModule
CHECK_DEADLOCK FALSE
