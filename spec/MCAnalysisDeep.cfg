INIT Init
NEXT Next
CONSTANT Length = 4
CONSTANT LineSet <- AnyLines
INVARIANT Inv
INVARIANT AccountedInv
INVARIANT TreeInv
INVARIANT ValueInv
INVARIANT CommentInv
INVARIANT ParseReportInv
CHECK_DEADLOCK FALSE
