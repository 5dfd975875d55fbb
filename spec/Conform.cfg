INIT Init
NEXT Next
INVARIANT ReadInv
INVARIANT CallInv
CHECK_DEADLOCK FALSE
