------------------------------ MODULE MCChunks ------------------------------
(***************************************************************************)
(* The byte arithmetic of Chunks, against integer arithmetic: reduction     *)
(* modulo every given two-byte modulus, decomposition and composition.      *)
(***************************************************************************)
EXTENDS Chunks, FiniteSets

CONSTANTS Moduli, Lo, Hi, Step    \* values Lo, Lo + Step, ... up to Hi

VARIABLE x
Init == x \in {Lo + (k * Step * 64) : k \in 0..((Hi - Lo) \div (Step * 64))}
Next == x < Hi - Step /\ x' = x + Step /\ ((x - Lo) \div Step) % 64 # 63
Spec == Init /\ [][Next]_x

B1(v) == <<v % 256>>
B2(v) == <<(v \div 256) % 256, v % 256>>
B3(v) == <<(v \div 65536) % 256>> \o B2(v)
B4(v) == <<(v \div 16777216) % 256>> \o B3(v)
Val(bs) == FoldLeft(LAMBDA a, d : (a * 256) + d, 0, bs)

Reduction ==
    \A r \in Moduli :
        /\ Val(ModM(B4(x), B2(r))) = x % r
        /\ x < 16777216 => Val(ModM(B3(x), B2(r))) = x % r
        /\ x < 65536 => /\ Val(ModM(B2(x), B2(r))) = x % r
                        /\ Len(ModM(B2(x), B2(r))) = 2
                        /\ x < r => ModM(B2(x), B2(r)) = B2(x)
        /\ x < 256 => Val(ModM(B1(x), B2(r))) = x % r
        /\ BytesMod(B4(x), r) = x % r

\* decomposition: so many chunks, each in range, most significant first, and back
ChunksVal(c, b) == FoldLeft(LAMBDA a, d : (a * (2 ^ b)) + d, 0, c)
RoundTrip ==
    \A b \in Supported :
        LET bs == B4(x)  c == Decompose(bs, b) IN
        /\ Len(c) = 32 \div b
        /\ \A i \in DOMAIN c : c[i] \in 0..((2 ^ b) - 1)
        /\ Composable(c, b)
        /\ ComposeBytes(c, b) = bs
        /\ ChunksVal(c, b) = x
\* what can be composed is the decomposition of what it composes to: no second representation
Unique ==
    x < 65536 =>
    /\ LET c == <<x \div 256, x % 256>> IN
       /\ (Composable(c, 4) <=> (x \div 256 < 16 /\ x % 256 < 16))
       /\ (Composable(c, 4) => Decompose(ComposeBytes(c, 4), 4) = c)
       /\ Composable(c, 8) /\ Decompose(ComposeBytes(c, 8), 8) = c
       /\ ~Composable(<<x>>, 4) /\ ~Composable(<<x % 16, 0, x % 16>>, 4)
    /\ Composable(<<x>>, 8) <=> x < 256
    /\ Composable(<<x>>, 16) /\ Decompose(ComposeBytes(<<x>>, 16), 16) = <<x>>
    /\ \A b \in (1..32) \ Supported : ~Composable(<<x>>, b)
=============================================================================
