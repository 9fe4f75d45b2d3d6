SPECIFICATION Spec
VIEW View
INVARIANT Conforms
ALIAS Brief
CHECK_DEADLOCK FALSE
