INIT Init
NEXT Next
CONSTANT Length = 4
CONSTANT LineSet <- ContinuationLines
INVARIANT Inv
INVARIANT AccountedInv
INVARIANT TreeInv
INVARIANT ValueInv
INVARIANT CommentInv
INVARIANT ParseReportInv
CHECK_DEADLOCK FALSE
