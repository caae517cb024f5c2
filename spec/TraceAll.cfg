SPECIFICATION Spec
INVARIANT Report
POSTCONDITION Accepted
ALIAS Brief
CHECK_DEADLOCK FALSE
VIEW Where
