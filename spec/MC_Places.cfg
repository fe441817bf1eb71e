INIT Init
NEXT Next
INVARIANTS Sane
CHECK_DEADLOCK FALSE
