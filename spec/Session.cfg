SPECIFICATION Spec
INVARIANT NoFails
CHECK_DEADLOCK FALSE
