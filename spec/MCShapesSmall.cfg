SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS FitsIsClosed NoTruncation
CONSTANTS
 N = 2
 Lens = {0, 1, 2, 3}
 Full = TRUE
