INIT Init
NEXT Next
INVARIANTS Field Order Sums Elementary
CHECK_DEADLOCK FALSE
