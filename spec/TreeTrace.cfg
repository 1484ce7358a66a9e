SPECIFICATION TSpec
INVARIANTS NodesOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
