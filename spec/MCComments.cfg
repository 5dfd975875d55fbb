INIT Init
NEXT Next
CONSTANT Length = 4
CONSTANT LineSet <- CommentLines
INVARIANT Inv
INVARIANT AccountedInv
INVARIANT TreeInv
INVARIANT ValueInv
INVARIANT CommentInv
INVARIANT ParseReportInv
CHECK_DEADLOCK FALSE
