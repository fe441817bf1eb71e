INIT Init
NEXT Next
INVARIANTS Shapes OnePlace OneDt Clean
CHECK_DEADLOCK FALSE
