SPECIFICATION Spec
INVARIANTS TypeOK EnvOK NoRefRef
CHECK_DEADLOCK FALSE
