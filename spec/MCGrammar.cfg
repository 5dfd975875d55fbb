INIT Init
NEXT Next
CONSTANT Length = 4
CONSTANT Letters = {"a", " ", "`", ":", "=", "<", "-", "#", ">", "|", "\\"}
INVARIANT RangesInv
INVARIANT TextsInv
INVARIANT CompleteInv
INVARIANT BlankInv
INVARIANT SpacingInv
INVARIANT FirstInv
INVARIANT ClosesInv
CHECK_DEADLOCK FALSE
