SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS FitsIsClosed NoTruncation
CONSTANTS
 N = 3
 Lens = {0, 1, 2, 3, 4}
 Full = TRUE
