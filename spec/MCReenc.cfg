SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Outcome SumIsEnc Commutes
CONSTANTS
 N_ = 2
 B_ = 2
 Seed_ = 1
 K_ = 2
 L_ = 4
