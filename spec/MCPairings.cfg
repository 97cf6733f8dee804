SPECIFICATION Spec2
CHECK_DEADLOCK FALSE
CONSTANTS
  N_ = 2
  B_ = 2
  K_ = 1
  T_ = 1
  C_ = 1
  Seed_ = 1
  Tie_ = FALSE
INVARIANTS NonePaired ZeroPaired LeakTells
