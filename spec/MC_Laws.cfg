INIT Init
NEXT Next
INVARIANTS Sound Energy Sum3 SameRows Causal Magic Reciprocal
CHECK_DEADLOCK FALSE
