SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Reduction RoundTrip Unique
CONSTANTS
 Moduli = {257, 40961, 65521, 29677, 258, 256}
 Lo = 0
 Hi = 65535
 Step = 1
