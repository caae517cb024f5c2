SPECIFICATION Spec
VIEW View
INVARIANT RoundTrip
INVARIANT Canonical
INVARIANT FaultFound
INVARIANT Framing
INVARIANT Relay
INVARIANT Emit
CHECK_DEADLOCK FALSE
