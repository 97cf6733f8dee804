------------------------------- MODULE Saver -------------------------------
(***************************************************************************)
(* The algebra of SAVER with distributed keys and re-encryption.            *)
(*                                                                          *)
(* Every group element is represented by its exponent with respect to the   *)
(* base point of its group, every pairing by the product of exponents.      *)
(* A scalar is a tuple of residues, one per modulus in sys.mods: the order  *)
(* of the group for a toy engine, several primes for the production curve   *)
(* (a relation over the integers, or a polynomial identity, holds modulo    *)
(* all of them).                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLE sys    \* public parameters: [mods, n, b, G, H, D, C, g, srs, ...]

N(x) == [k \in DOMAIN sys.mods |-> x % sys.mods[k]]
Zero == [k \in DOMAIN sys.mods |-> 0]
One  == [k \in DOMAIN sys.mods |-> 1]
a ++ b == [k \in DOMAIN sys.mods |-> (a[k] + b[k]) % sys.mods[k]]
a -- b == [k \in DOMAIN sys.mods |-> (a[k] - b[k]) % sys.mods[k]]
a ** b == [k \in DOMAIN sys.mods |-> (a[k] * b[k]) % sys.mods[k]]
Neg(a) == [k \in DOMAIN sys.mods |-> (0 - a[k]) % sys.mods[k]]
Ns(xs) == [i \in DOMAIN xs |-> N(xs[i])]

RECURSIVE PowMod(_, _, _)
PowMod(x, e, q) ==
    IF e = 0 THEN 1
    ELSE LET h == PowMod((x * x) % q, e \div 2, q)
         IN  IF e % 2 = 1 THEN (x * h) % q ELSE h
Invertible(a) == \A k \in DOMAIN sys.mods : a[k] # 0
Inv(a) == [k \in DOMAIN sys.mods |-> PowMod(a[k], sys.mods[k] - 2, sys.mods[k])]
a // b == a ** Inv(b)

Sum(xs)     == FoldLeft(LAMBDA acc, x : acc ++ x, Zero, xs)
Dot(xs, ys) == FoldLeft(LAMBDA acc, i : acc ++ (xs[i] ** ys[i]), Zero, [i \in 1..Len(xs) |-> i])
AddV(xs, ys) == [i \in DOMAIN xs |-> xs[i] ++ ys[i]]
Scale(c, xs) == [i \in DOMAIN xs |-> c ** xs[i]]
SumV(vs)    == FoldLeft(LAMBDA acc, v : AddV(acc, v), Head(vs), Tail(vs))

Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Pow2(_)
Pow2(b) == IF b = 0 THEN 1 ELSE 2 * Pow2(b - 1)
ChunkMax == 65535                                    \* largest value of the chunk type
RangeMax(bits) == IF bits >= 16 THEN ChunkMax ELSE Pow2(bits) - 1

(***************************************************************************)
(* Keys                                                                     *)
(***************************************************************************)
\* key of one authority with secrets s_1..s_n, t_0..t_n (stored as t[1..n+1])
SingleEK(s, t) ==
    [ X0 |-> sys.D,
      X  |-> Scale(sys.D, s),
      Y  |-> [i \in DOMAIN s |-> sys.g[i] ** t[i + 1]],
      Z  |-> Scale(sys.H, t),
      P1 |-> sys.D ** (t[1] ++ Dot(s, Tail(t))),
      P2 |-> sys.C ** (One ++ Sum(s)) ]

DecKey(rho, s, v) ==
    [ V0 |-> sys.H ** rho,
      V1 |-> [i \in DOMAIN s |-> sys.H ** (s[i] ** v[i])],
      V2 |-> [i \in DOMAIN s |-> sys.H ** (rho ** v[i])] ]

\* what one party of the distributed key generation publishes first
PartialEK(s, t) ==
    [ X0 |-> sys.D,
      X  |-> Scale(sys.D, s),
      Y  |-> [i \in DOMAIN s |-> sys.g[i] ** t[i + 1]],
      Z  |-> Scale(sys.H, t),
      P2 |-> sys.C ** Sum(s) ]

CombineEK(ks) ==
    [ X0 |-> ks[1].X0,
      X  |-> SumV([i \in DOMAIN ks |-> ks[i].X]),
      Y  |-> SumV([i \in DOMAIN ks |-> ks[i].Y]),
      Z  |-> SumV([i \in DOMAIN ks |-> ks[i].Z]),
      P2 |-> sys.C ++ Sum([i \in DOMAIN ks |-> ks[i].P2]) ]

\* second round: contribution of one party to the last key element
P1Share(cek, t) == (cek.X0 ** t[1]) ++ Dot(cek.X, Tail(t))

FinalEK(cek, p1) ==
    [ X0 |-> cek.X0, X |-> cek.X, Y |-> cek.Y, Z |-> cek.Z, P1 |-> p1, P2 |-> cek.P2 ]

CommitmentKey(ek) == Append(ek.Y, ek.P1)

(***************************************************************************)
(* Ciphertexts                                                              *)
(***************************************************************************)
EncVal(ek, m, r) ==
    LET mm == Ns(m)
    IN  [ c0  |-> ek.X0 ** r,
          c   |-> [i \in DOMAIN ek.X |-> (ek.X[i] ** r) ++ (sys.g[i] ** mm[i])],
          psi |-> Dot(ek.Y, mm) ++ (ek.P1 ** r) ]

AddCt(x, y) == [ c0 |-> x.c0 ++ y.c0, c |-> AddV(x.c, y.c), psi |-> x.psi ++ y.psi ]

\* e(c_0,Z_0) * prod e(c_i,Z_i) = e(psi,H)
CommitOK(ct, ek) ==
    (ct.c0 ** ek.Z[1]) ++ Dot(ct.c, Tail(ek.Z)) = ct.psi ** sys.H

BatchOK(cts, coef, ek) ==
    LET comb(f(_)) == Sum([i \in DOMAIN cts |-> coef[i] ** f(cts[i])])
        c0(x)  == x.c0
        psi(x) == x.psi
        sumc   == SumV([i \in DOMAIN cts |-> Scale(coef[i], cts[i].c)])
    IN  (comb(c0) ** ek.Z[1]) ++ Dot(sumc, Tail(ek.Z)) = comb(psi) ** sys.H

(***************************************************************************)
(* Decryption: what remains for the search of each chunk, and its base.     *)
(* A chunk value d is a solution iff d * base = rest.                       *)
(***************************************************************************)
RestSingle(ct, rho, dk) ==
    [i \in DOMAIN ct.c |-> (ct.c[i] ** dk.V2[i]) -- ((rho ** ct.c0) ** dk.V1[i])]
BaseSingle(dk) == [i \in DOMAIN dk.V2 |-> sys.g[i] ** dk.V2[i]]

RestDest(rct, sk) == [i \in DOMAIN rct.c |-> rct.c[i] -- (sk ** rct.c0)]
BaseDest(rct) == [i \in DOMAIN rct.c |-> sys.g[i]]

IsSol(d, rest, base) == N(d) ** base = rest
\* all solutions within 0..max
Solve(rest, base, max) ==
    LET q == sys.mods[1]
    IN  IF base[1] = 0 THEN {d \in 0..max : IsSol(d, rest, base)}
        ELSE LET d0 == (rest[1] * PowMod(base[1], q - 2, q)) % q
             IN  {d \in {d0 + (k * q) : k \in 0..(max \div q)} : d <= max /\ IsSol(d, rest, base)}
\* may a decryption with these rests and search range return / fail?
ValOK(val, rest, base, max) ==
    /\ Len(val) = Len(rest)
    /\ \A i \in DOMAIN rest : val[i] \in 0..max /\ IsSol(val[i], rest[i], base[i])
Decodable(rest, base, max) == \A i \in DOMAIN rest : Solve(rest[i], base[i], max) # {}

(***************************************************************************)
(* Re-encryption                                                            *)
(***************************************************************************)
ShareVal(ct, pk, s, rho) ==
    [ w  |-> [i \in DOMAIN ct.c |-> (pk ** rho) -- (ct.c0 ** s[i])],
      gr |-> sys.G ** rho ]
AddShare(x, y) == [ w |-> AddV(x.w, y.w), gr |-> x.gr ++ y.gr ]
ApplyVal(ct, sh) == [ c0 |-> sh.gr, c |-> AddV(ct.c, sh.w) ]

(***************************************************************************)
(* The SNARK (Groth16 with the ciphertext as public input)                  *)
(***************************************************************************)
ProofD(srs, ct) == (ct.c0 ++ Sum(ct.c)) ++ srs.g0
ProofOK(srs, pr, ct) ==
    pr.a ** pr.b = ((srs.alpha ** srs.beta) ++ (pr.c ** srs.delta)) ++ (ProofD(srs, ct) ** srs.gamma)
\* the c-element of the proof for statement m with encryption randomness r, given a and b
ProofC(srs, ek, m, r, a, b) ==
    ((((a ** b) -- (srs.alpha ** srs.beta)) -- ((srs.g0 ++ Dot(srs.g, Ns(m))) ** srs.gamma)) // srs.delta)
        ++ (r ** ek.P2)
InRange(m, b) == \A i \in DOMAIN m : m[i] <= RangeMax(b)
=============================================================================
