------------------------------- MODULE Chunks -------------------------------
(***************************************************************************)
(* Messages as big-endian byte strings, their reduction modulo the order of *)
(* the scalar field, their decomposition into chunks and the composition.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

\* order of the scalar field of BLS12-381
BlsR == << 115,237,167,83, 41,157,125,72, 51,57,216,8, 9,161,216,5,
           83,189,164,2, 255,254,91,254, 255,255,255,255, 0,0,0,1 >>

\* order of its base field (used as another scalar field for chunking)
BlsQ == << 26,1,17,234,57,127,230,154,75,27,167,182,67,75,172,215,100,119,75,132,243,133,18,191,103,48,210,160,246,176,246,36,30,171,255,254,177,83,255,255,185,254,255,255,255,255,170,171 >>

Zeros(n) == [i \in 1..n |-> 0]
\* left-pad to n bytes (n >= Len(x))
Pad(x, n) == Zeros(n - Len(x)) \o x
\* x >= y for byte strings of one length
RECURSIVE GeqAt(_, _, _)
GeqAt(x, y, i) == IF i > Len(x) THEN TRUE
                  ELSE IF x[i] # y[i] THEN x[i] > y[i] ELSE GeqAt(x, y, i + 1)
Geq(x, y) == GeqAt(x, y, 1)
\* x - y, x >= y, one length
SubBytes(x, y) ==
    LET step(acc, i) ==   \* acc = <<borrow, digits from position i+1 on>>
            LET d == (x[i] - y[i]) - acc[1]
            IN  IF d < 0 THEN <<1, <<d + 256>> \o acc[2]>> ELSE <<0, <<d>> \o acc[2]>>
    IN  FoldLeft(LAMBDA acc, k : step(acc, (Len(x) + 1) - k), <<0, <<>>>>, [k \in 1..Len(x) |-> k])[2]
\* 2x + bit, with one more byte of room assumed not to overflow
Double(x, bit) ==
    LET step(acc, i) ==
            LET d == (2 * x[i]) + acc[1] IN <<d \div 256, <<d % 256>> \o acc[2]>>
    IN  FoldLeft(LAMBDA acc, k : step(acc, (Len(x) + 1) - k), <<bit, <<>>>>, [k \in 1..Len(x) |-> k])[2]
RECURSIVE SubWhile(_, _)
SubWhile(x, r) == IF Geq(x, r) THEN SubWhile(SubBytes(x, r), r) ELSE x
\* acc * 256 + byte modulo r (33-byte arithmetic)
StepByte(acc, byte, r) ==
    FoldLeft(LAMBDA a, k : SubWhile(Double(a, (byte \div (2 ^ (8 - k))) % 2), r), acc,
             [k \in 1..8 |-> k])
\* reduction of a byte string modulo the byte string r (whose first byte is not 0): Len(r) bytes
ModM(x, r) ==
    LET r33 == <<0>> \o r
        n   == Len(x)
        \* as many leading bytes as the modulus has can be taken directly
        h   == IF n <= Len(r) THEN n ELSE Len(r)
        a0  == SubWhile(Pad(SubSeq(x, 1, h), Len(r) + 1), r33)
        res == FoldLeft(LAMBDA a, k : StepByte(a, x[h + k], r33), a0, [k \in 1..(n - h) |-> k])
    IN  Tail(res)
ModR(x) == ModM(x, BlsR)

Supported == {4, 8, 16}
\* decomposition of a canonical 32-byte string
Decompose(x, b) ==
    CASE b = 4  -> FlattenSeq([i \in DOMAIN x |-> <<x[i] \div 16, x[i] % 16>>])
      [] b = 8  -> x
      [] b = 16 -> [i \in 1..(Len(x) \div 2) |-> (x[(2 * i) - 1] * 256) + x[2 * i]]
\* bytes denoted by a chunk sequence; defined when Composable
Composable(c, b) ==
    CASE b = 4  -> Len(c) % 2 = 0 /\ \A i \in DOMAIN c : c[i] < 16
      [] b = 8  -> \A i \in DOMAIN c : c[i] < 256
      [] b = 16 -> TRUE
      [] OTHER  -> FALSE
ComposeBytes(c, b) ==
    CASE b = 4  -> [i \in 1..(Len(c) \div 2) |-> (c[(2 * i) - 1] * 16) + c[2 * i]]
      [] b = 8  -> c
      [] b = 16 -> FlattenSeq([i \in DOMAIN c |-> <<c[i] \div 256, c[i] % 256>>])
\* value of a byte string / chunk sequence modulo a small q
BytesMod(x, q) == FoldLeft(LAMBDA a, d : ((a * 256) + d) % q, 0, x)
Ceil(a, b) == (a + b - 1) \div b
=============================================================================
