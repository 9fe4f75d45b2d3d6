SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
VIEW View
