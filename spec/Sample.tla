------------------------------- MODULE Sample -------------------------------
(***************************************************************************)
(* Concrete public parameters and secrets for model checking the            *)
(* specification.  Every property checked is a polynomial identity (or      *)
(* inequality) in the secrets; at pseudo-random residues modulo three       *)
(* primes an identity holds by accident with probability about 1e-14 per    *)
(* comparison, so one assignment decides it and TLC spends its effort on    *)
(* histories: who contributes what, to what, in which order, how often.     *)
(***************************************************************************)
EXTENDS Secrecy

CONSTANTS N_,       \* number of chunks
          B_,       \* bits per chunk
          Seed_     \* which pseudo-random values

ModsS == <<46337, 46327, 46309>>
\* a pseudo-random non-zero residue triple, by number
Rnd(i) == [k \in 1..3 |->
    LET q == ModsS[k]
        x == PowMod(3 + ((i * 17 + Seed_ * 71) % 40000), 10007 + ((i * 13 + k * 7) % 5000), q)
        y == PowMod(x + 5, 3, q)
    IN  1 + (((x * ((y + k) % q)) % q) % (q - 1))]
RndV(i, n) == [j \in 1..n |-> Rnd(100 * i + j)]

\* every argument below 2000 is for parameters
SampleSys ==
    LET q(i) == ModsS[i]
        mul(a, b) == [k \in 1..3 |-> (a[k] * b[k]) % q(k)]
        inv(a) == [k \in 1..3 |-> PowMod(a[k], q(k) - 2, q(k))]
        neg(a) == [k \in 1..3 |-> (0 - a[k]) % q(k)]
        gg == Rnd(1)  hh == Rnd(2)  gamma == Rnd(3)  delta == Rnd(4)
    IN  [ mods |-> ModsS, q |-> 0, exact |-> TRUE, ids |-> FALSE, n |-> N_, b |-> B_, G |-> gg, H |-> hh,
          D |-> mul(gg, mul(delta, inv(hh))), C |-> neg(mul(gg, mul(gamma, inv(hh)))), g |-> RndV(5, N_),
          srs |-> << [alpha |-> Rnd(6), beta |-> Rnd(7), gamma |-> gamma, delta |-> delta, g0 |-> Rnd(8), g |-> RndV(5, N_)],
                     [alpha |-> Rnd(9), beta |-> Rnd(10), gamma |-> Rnd(11), delta |-> Rnd(12), g0 |-> Rnd(13), g |-> RndV(14, N_)] >> ]

\* secrets of the i-th participant
SecS(i) == RndV(20 + 2 * i, N_)
SecT(i) == RndV(21 + 2 * i, N_ + 1)

Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
=============================================================================
