SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OfSum SoundIsOfSum Verifies OwnSecrets
CONSTANTS
 N_ = 2
 B_ = 2
 Seed_ = 1
 K_ = 3
 LC_ = 3
 LP_ = 3
