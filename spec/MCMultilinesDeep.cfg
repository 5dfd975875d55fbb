INIT Init
NEXT Next
CONSTANT Length = 6
CONSTANT LineSet <- MultilineLines
INVARIANT Inv
INVARIANT AccountedInv
INVARIANT TreeInv
INVARIANT ValueInv
INVARIANT CommentInv
INVARIANT ParseReportInv
CHECK_DEADLOCK FALSE
