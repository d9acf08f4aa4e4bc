SPECIFICATION Spec
CONSTANTS Long = {"L", "M"}
 Short = {"s"}
 MaxOps = 4
INVARIANT NoOrphan
INVARIANT Atomic
INVARIANT Complete
CHECK_DEADLOCK FALSE
