INIT Init
NEXT Next
CONSTANT Length = 4
CONSTANT LineSet <- AnyLines
INVARIANT TotalInv
INVARIANT NestedInv
INVARIANT FoundInv
INVARIANT PartInv
INVARIANT LocaleInv
CHECK_DEADLOCK FALSE
