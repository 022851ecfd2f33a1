SPECIFICATION Spec
INVARIANTS TypeOK Clean
CHECK_DEADLOCK FALSE
