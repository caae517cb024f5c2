SPECIFICATION Spec
INVARIANTS Faithful Conserved Complete NoExcess
PROPERTY Ends
CHECK_DEADLOCK FALSE
