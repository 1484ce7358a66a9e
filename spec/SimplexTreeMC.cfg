SPECIFICATION Spec
CONSTANTS Side = 8 Reach = 1 LineStep = 4 MaxL = 3
INVARIANTS NodeReached SegReached
CHECK_DEADLOCK FALSE
