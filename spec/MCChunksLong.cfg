SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Reduction RoundTrip Unique
CONSTANTS
 Moduli = {257, 40961, 65521, 29677}
 Lo = 65536
 Hi = 2147000000
 Step = 2037117
