SPECIFICATION Spec
INVARIANT Conforms
INVARIANT Inv
CHECK_DEADLOCK FALSE
