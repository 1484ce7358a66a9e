SPECIFICATION Spec
INVARIANTS Unique Symmetric Bijective Out
CHECK_DEADLOCK FALSE
