-------------------------------- MODULE MCCt --------------------------------
(***************************************************************************)
(* Ciphertexts and proofs (C01, C05, C06, C07, C09, C16): honest and        *)
(* dishonest encryptions under two keys, sums, one alteration of any kind   *)
(* at any position, proofs and alterations of proofs.                       *)
(***************************************************************************)
EXTENDS Sample, Faults

CONSTANTS Alter2            \* TRUE: two alterations

Max_ == RangeMax(B_)
Grid == [1..N_ -> 0..1]
Auth(i) == [rho |-> Rnd(60 + i), dk |-> DecKey(Rnd(60 + i), SecS(i), RndV(30 + i, N_))]
EkRec(o, i) == [val |-> SingleEK(SecS(i), SecT(i)), kind |-> "single", owner |-> o, parties |-> <<>>, sound |-> TRUE]

Ms == [m1 |-> [i \in 1..N_ |-> IF i = 1 THEN Max_ ELSE 1], m2 |-> [i \in 1..N_ |-> IF i = 1 THEN 0 ELSE Max_],
       m3 |-> [i \in 1..N_ |-> 0]]
Enc(nm, o, i, m, r) == [val |-> EncVal(SingleEK(SecS(i), SecT(i)), m, r), ek |-> o, m |-> m, r |-> r, pure |-> TRUE, of |-> <<nm>>]

Init ==
    /\ sys = SampleSys
    /\ heap = [EmptyHeap EXCEPT
         !.auth = [a \in {"A1", "A2"} |-> IF a = "A1" THEN Auth(1) ELSE Auth(2)],
         !.ek = [a \in {"A1", "A2"} |-> IF a = "A1" THEN EkRec(a, 1) ELSE EkRec(a, 2)],
         !.ct = [c \in {"c1", "c2", "c3"} |->
             CASE c = "c1" -> Enc(c, "A1", 1, Ms.m1, Rnd(80))
               [] c = "c2" -> Enc(c, "A1", 1, Ms.m2, Rnd(81))
               [] c = "c3" -> Enc(c, "A2", 2, Ms.m1, Rnd(82))]]

Add == /\ ~Has("ct", "s") /\ ~Has("ct", "t1")
       /\ \E a, b \in DOMAIN heap.ct : DoAdd("s", a, b, AddCt(heap.ct[a].val, heap.ct[b].val))

\* all alterations of a ciphertext with N_ chunks
Alts ==
    UNION { {[k |-> k, i |-> i, d |-> d] : i \in 0..(N_ + 1), d \in {1, 2}} : k \in {"add"} }
    \cup {[k |-> "shift", i |-> i, j |-> j, d |-> 1] : i \in 0..(N_ + 1), j \in 0..(N_ + 1)}
    \cup {[k |-> "swap", i |-> i, j |-> j, d |-> 1] : i \in 0..(N_ + 1), j \in 0..(N_ + 1)}
    \cup {[k |-> k, i |-> i, d |-> 1] : k \in {"neg", "zero", "double", "from"}, i \in 0..(N_ + 1)}
    \cup {[k |-> "setm", i |-> i, d |-> d, ek |-> ek] : i \in 1..N_, d \in {1, Max_ + 1}, ek \in {"A1", "A2"}}
    \cup {[k |-> "rerand", i |-> 0, d |-> 3, ek |-> ek] : ek \in {"A1", "A2"}}
    \cup {[k |-> "rot", i |-> 0, d |-> 1]}
Tamper(n, srcs) ==
    /\ ~Has("ct", n)
    /\ \E s \in srcs, a \in Alts, o \in {"c1", "c2", "c3"} :
          /\ a.k # "from" => o = "c1"
          \* alterations without an effect are no alterations
          /\ TamperVal(a, heap.ct[s].val, heap.ct[o].val) # heap.ct[s].val
          /\ DoTamper(n, s, TamperVal(a, heap.ct[s].val, heap.ct[o].val))
Next == Add \/ Tamper("t1", DOMAIN heap.ct) \/ (Alter2 /\ Has("ct", "t1") /\ Tamper("t2", {"t1"}))
Spec == Init /\ [][Next]_dvars

(***************************************************************************)
(* A ciphertext verifies under a key iff it is an encryption under that key *)
(* of some (possibly out-of-range) scalars; in particular no single         *)
(* component can be altered.                                                *)
(***************************************************************************)
\* the scalars a ciphertext encodes under key k, from its first components
Opening(ct, i) ==
    LET s == SecS(i)  r == ct.c0 // sys.D
    IN  [r |-> r, m |-> [j \in DOMAIN ct.c |-> (ct.c[j] -- ((sys.D ** s[j]) ** r)) // sys.g[j]]]
IsEnc(ct, i) ==
    LET o == Opening(ct, i)  ek == SingleEK(SecS(i), SecT(i))
    IN  ct.psi = Dot(ek.Y, o.m) ++ (ek.P1 ** o.r)
\* what the last step added (earlier states were checked before)
New == IF Has("ct", "t2") THEN {"t2"} ELSE IF Has("ct", "t1") THEN {"t1"} ELSE IF Has("ct", "s") THEN {"s"} ELSE DOMAIN heap.ct
Idx(k) == IF k = "A1" THEN 1 ELSE 2
VerifiesIffEnc ==
    \A c \in New : \A k \in DOMAIN heap.ek :
        CommitOK(heap.ct[c].val, heap.ek[k].val) <=> IsEnc(heap.ct[c].val, Idx(k))
HonestVerifies ==
    \A c \in New : heap.ct[c].pure =>
        \A k \in DOMAIN heap.ek : CommitOK(heap.ct[c].val, heap.ek[k].val) <=> k = heap.ct[c].ek
Diff(x, y) == LET u == <<x.c0>> \o x.c \o <<x.psi>>  v == <<y.c0>> \o y.c \o <<y.psi>>
              IN  Cardinality({i \in DOMAIN u : u[i] # v[i]})
OneComponent ==
    Has("ct", "t1") /\ ~Has("ct", "t2") =>
        \A c \in DOMAIN heap.ct \ {"t1"} :
            Diff(heap.ct["t1"].val, heap.ct[c].val) = 1 /\ heap.ct[c].pure
                => \A k \in DOMAIN heap.ek : ~CommitOK(heap.ct["t1"].val, heap.ek[k].val)

(***************************************************************************)
(* Decryption finds exactly what is encoded                                 *)
(***************************************************************************)
Sols(c, a) ==
    LET rest == RestSingle(heap.ct[c].val, heap.auth[a].rho, heap.auth[a].dk)
        base == BaseSingle(heap.auth[a].dk)
    IN  [i \in 1..N_ |-> {x \in 0..(4 * Max_) : IsSol(x, rest[i], base[i])}]
DecryptsToPlain ==
    \A c \in New : heap.ct[c].pure =>
        \A a \in DOMAIN heap.auth :
            IF a = heap.ct[c].ek THEN \A i \in 1..N_ : Sols(c, a)[i] = {heap.ct[c].m[i]}
            ELSE \A i \in 1..N_ : Sols(c, a)[i] = {}
AtMostOne == \A c \in New : \A a \in DOMAIN heap.auth : \A i \in 1..N_ : Cardinality(Sols(c, a)[i]) <= 1
\* ... and whatever decrypts to d and verifies is an encryption of d: the commitment binds
DecryptsToEncoded ==
    \A c \in New : \A k \in DOMAIN heap.auth :
        \A i \in 1..N_ : \A x \in Sols(c, k)[i] : N(x) = Opening(heap.ct[c].val, Idx(k)).m[i]
\* the published commitment to the secret: nu = rho c_0 satisfies the decryption equations
NuOK ==
    \A c \in New : heap.ct[c].pure =>
        LET a == heap.auth[heap.ct[c].ek]  nu == a.rho ** heap.ct[c].val.c0 IN
        /\ nu ** sys.H = heap.ct[c].val.c0 ** a.dk.V0
        /\ \A i \in 1..N_ : (heap.ct[c].val.c[i] ** a.dk.V2[i]) -- (nu ** a.dk.V1[i])
                                = N(heap.ct[c].m[i]) ** (sys.g[i] ** a.dk.V2[i])

(***************************************************************************)
(* Batches                                                                  *)
(***************************************************************************)
Coefs == {<<Rnd(300), Rnd(301), Rnd(302)>>}
BatchIffEach ==
    \A k \in DOMAIN heap.ek : \A x \in New : \A y \in DOMAIN heap.ct : \A f \in Coefs :
        LET cts == <<heap.ct[x].val, heap.ct["c1"].val, heap.ct[y].val>> IN
        BatchOK(cts, f, heap.ek[k].val) <=> \A i \in DOMAIN cts : CommitOK(cts[i], heap.ek[k].val)

(***************************************************************************)
(* Proofs: made with c1 (plaintext m1, randomness 80) under A1              *)
(***************************************************************************)
Pa == Rnd(400)   Pb == Rnd(401)
Proof(c) == LET x == heap.ct[c] IN
    [a |-> Pa, b |-> Pb, c |-> ProofC(sys.srs[1], heap.ek[x.ek].val, x.m, x.r, Pa, Pb)]
Bad(c) == {p \in {TProofVal([k |-> k, d |-> 1, ek |-> heap.ct[c].ek, ct |-> c], Proof(c), [a |-> Rnd(402), b |-> Rnd(403), c |-> Rnd(404)]) :
                  k \in ProofKinds \ {"ab-"}} : p # Proof(c)}
\* the sum accepted with a proof is the one of the same scalars: verification looks at the sum of the components only
ProofForCt ==
    \A c \in {"c1", "c2", "c3"} : \A x \in New :
        LET ct == heap.ct[x].val  ok == ProofOK(sys.srs[1], Proof(c), ct) IN
        /\ x = c => ok
        /\ (ok <=> ProofD(sys.srs[1], ct) = ProofD(sys.srs[1], heap.ct[c].val))
        /\ ~ProofOK(sys.srs[2], Proof(c), ct)
        /\ \A p \in Bad(c) : x = c => ~ProofOK(sys.srs[1], p, ct)
\* together with the commitment: the proven ciphertext under its key and no other (an adversary who knew the discrete
\* logarithms of the generators could let changes cancel in the sum; nobody does)
ProofAndCommitment ==
    \A c \in {"c1", "c2", "c3"} : \A x \in New : \A k \in DOMAIN heap.ek :
        LET ct == heap.ct[x].val IN
        ProofOK(sys.srs[1], Proof(c), ct) /\ CommitOK(ct, heap.ek[k].val)
            => k = heap.ct[c].ek /\ ct = heap.ct[c].val
=============================================================================
