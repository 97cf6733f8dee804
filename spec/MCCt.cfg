SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS VerifiesIffEnc HonestVerifies OneComponent DecryptsToPlain AtMostOne DecryptsToEncoded NuOK BatchIffEach ProofForCt ProofAndCommitment
CONSTANTS
 N_ = 2
 B_ = 2
 Seed_ = 1
 Alter2 = FALSE
