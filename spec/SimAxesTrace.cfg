SPECIFICATION TSpec
INVARIANTS FilesKnown CurKnown OneMesh
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
