SPECIFICATION Spec
CONSTANTS Side = 8 Reach = 3 LineStep = 2 MaxL = 3
INVARIANTS NodeReached SegReached
CHECK_DEADLOCK FALSE
