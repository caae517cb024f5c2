SPECIFICATION Spec
INVARIANT Holds
POSTCONDITION Accepted
ALIAS Brief
CHECK_DEADLOCK FALSE
VIEW Where
