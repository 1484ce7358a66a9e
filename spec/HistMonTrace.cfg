SPECIFICATION TSpec
INVARIANTS Bounded Ordered Fresh Current
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
