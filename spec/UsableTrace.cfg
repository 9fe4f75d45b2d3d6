SPECIFICATION Spec
INVARIANT Meaning
INVARIANT Conforms
CHECK_DEADLOCK FALSE
