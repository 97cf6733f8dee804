SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS FitsIsClosed NoTruncation
CONSTANTS
 N = 16
 Lens = {15, 16, 17}
 Full = FALSE
