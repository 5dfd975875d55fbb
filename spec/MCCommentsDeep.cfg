INIT Init
NEXT Next
CONSTANT Length = 5
CONSTANT LineSet <- CommentLines
INVARIANT Inv
INVARIANT AccountedInv
INVARIANT TreeInv
INVARIANT ValueInv
INVARIANT CommentInv
INVARIANT ParseReportInv
CHECK_DEADLOCK FALSE
