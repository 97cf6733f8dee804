SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OnlySharedMask NoneWithOwnMasks AsInSecrecy SharedMaskTells
CONSTANTS
 N_ = 2
 B_ = 2
 Seed_ = 1
 K_ = 1
 T_ = 3
 C_ = 1
