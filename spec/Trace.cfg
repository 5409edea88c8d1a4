SPECIFICATION Spec
INVARIANT StartOk
CHECK_DEADLOCK FALSE
