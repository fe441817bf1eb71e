INIT Init
NEXT Next
INVARIANTS OwnHistory
PROPERTY ByValue
CHECK_DEADLOCK FALSE
