INIT Init
NEXT Next
CONSTANT Length = 5
CONSTANT LineSet <- ContinuationLines
INVARIANT Inv
INVARIANT AccountedInv
INVARIANT TreeInv
INVARIANT ValueInv
INVARIANT CommentInv
INVARIANT ParseReportInv
CHECK_DEADLOCK FALSE
