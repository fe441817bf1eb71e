INIT Init
NEXT Next
INVARIANTS SameAsWritten Wired
CHECK_DEADLOCK FALSE
